From 576ce98379ff9143df2015d96f9ada9dab6a893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 01/54] fix: find_src_of_bearoff_with overlooks the ace point

---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 472c878..e4c1e5e 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -141,7 +141,7 @@ class AbstractBoard(object):
     for i in range(die - 1, 6):
       if self.has_chequer_to_move(i):
         return None
-    for i in range(die, 0, -1):
+    for i in range(die - 1, -1, -1):
       if self.has_chequer_to_move(i):
         return i
     return None# no chequer on board!
-- 
2.43.0


From d5ba2fc32207c62ef13692054a0dbcba98b9b676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 02/54] fix: a dead cube could be turned by YOU but not by HIM

---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index e4c1e5e..20fc109 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -162,7 +162,7 @@ class AbstractBoard(object):
       if self.on_inner_action == YOU:
         if self.match_length == MONEY_GAME:
           return True
-        if your_score <= self.match_length - pow(2, self.cube_in_logarithm):
+        if your_score < self.match_length - pow(2, self.cube_in_logarithm):
           return True
       return False
     elif self.on_action == HIM:
-- 
2.43.0


From cbcc3cd89ea566002453eebf5b254e265662deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 03/54] fix: a player could double with the opponent's cube

---
 bglib/model/board.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 20fc109..fdcae34 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -156,6 +156,8 @@ class AbstractBoard(object):
       return False
     if self.doubled:
       return False
+    if self.cube_owner not in (who, CENTER):
+      return False
     if self.on_action == YOU:
       if who != YOU:
         return False
-- 
2.43.0


From 49a1b9b83cf375e8d9221147688e2f1637cdcd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 04/54] fix: taking a double neither turned the cube nor gave
 it to the taker

---
 bglib/model/boardeditor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/model/boardeditor.py b/bglib/model/boardeditor.py
index d6f733f..322e447 100644
--- a/bglib/model/boardeditor.py
+++ b/bglib/model/boardeditor.py
@@ -106,7 +106,9 @@ class BoardEditor(AbstractBoard):
   def take(self, who):
     assert self.is_cube_take_or_pass(who)
     self.on_inner_action = self.on_action
-    #self.doubled = False
+    self.doubled = False
+    self.cube_in_logarithm += 1
+    self.cube_owner = who
 
   def drop(self, who):
     assert self.is_cube_take_or_pass(who)
-- 
2.43.0


From 6dc209d36f94249f97375d92422c463ea50fe5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 05/54] fix: a finished game could be scored again by another
 drop or resignation

---
 bglib/model/board.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index fdcae34..0ec3bc2 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -129,7 +129,8 @@ class AbstractBoard(object):
     return self.rolled[0] == self.rolled[1]
 
   def is_cube_take_or_pass(self, who):
-    return self.doubled and self.on_inner_action != self.on_action and \
+    return self.game_state == ON_GOING and \
+      self.doubled and self.on_inner_action != self.on_action and \
       self.on_inner_action == who
   
   def find_src_of_bearoff_with(self, die):
@@ -184,13 +185,15 @@ class AbstractBoard(object):
            self.match_length == MONEY_GAME 
 
   def is_leagal_to_resign(self, who):
-    return self.on_action == who and self.on_inner_action == who
+    return self.game_state == ON_GOING and \
+           self.on_action == who and self.on_inner_action == who
 
   def is_to_accept_resign(self, who):
     return self.resign_offer in (RESIGN_SINGLE, 
                                  RESIGN_GAMMON,
                                  RESIGN_BACKGAMMON
                                  ) \
+           and self.game_state == ON_GOING \
            and self.on_inner_action == who
   
 
-- 
2.43.0


From 476999fa4b7c5440c076885c7f45e365111570ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 06/54] fix: guess_your_single_pm_from_dest used up the
 caller's dice when bearing off

---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 8907add..9f14c32 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -327,6 +327,7 @@ class MoveFactory(object):
       if src is not None: # src== 0 is valid,as ace point
         return PartialMove(die, src, dest, False)
       else:
+        available = AvailableToPlay(rolled=None, copy_src=available)
         available.consume(die)
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
-- 
2.43.0


From 19188189a1c55116fd81e10c9046c252470724f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 07/54] fix: guess_your_single_pm_from_dest raised IndexError
 for sources beyond the bar

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 9f14c32..c62fcb4 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -332,7 +332,7 @@ class MoveFactory(object):
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
       if b.is_open_to_land(dest):
-        if b.has_chequer_to_move(dest + die):
+        if dest + die <= BAR and b.has_chequer_to_move(dest + die):
           return PartialMove(die, dest+die, dest, b.is_hitting_to_land(dest))
         else:
           # no source chequer, try another die.
-- 
2.43.0


From be443177de6d4c241e1491a064ff2e8a6cfa36f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 08/54] fix: guess_your_multiple_partial_undoes left its steps
 on the board

---
 bglib/model/move.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index c62fcb4..9d6958b 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -417,7 +417,9 @@ class MoveFactory(object):
       elif inverse.dest < dest:
         b.make_partial_move(inverse)
         available.add(inverse.die)
-        return self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        mv = self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        b.make_partial_move(pm)
+        return mv
       else:
         assert(inverse.dest > dest)
         return self.Error('Overrun, bad (src, dest)=(%s, %s)'%
-- 
2.43.0


From 83ec7899c77d8726bb2f54c388887195e233535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 09/54] fix: guess_your_making_point moved on the factory's
 board and kept using spent dice

---
 bglib/model/move.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 9d6958b..84e2d60 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -428,21 +428,21 @@ class MoveFactory(object):
                 (util.move_ntop(src), util.move_ntop(dest)))
 
   def guess_your_making_point(self, dest, position=None, available=None, pms=None):
-    b = self.board
+    b = BoardEditor(self.board)
     if available is None:
-      available = AvailableToPlay(self.board.rolled)
-    if position is None:
-      position = self.board.position
+      available = self.available
+    available = AvailableToPlay(rolled=None, copy_src=available)
+    if position is not None:
+      b.position = position
     if pms is None:
       pms = []
 
-    pm = self.guess_your_single_pm_from_dest(dest)
+    pm = self.guess_your_single_pm_from_dest(dest, b, available)
     if pm:
       pms.append(pm)
-      available = available.consume(pm.die)
-      pm = self.guess_your_single_pm_from_dest(
-                dest, b=b.make_partial_move(pm),
-                available=available)
+      available.consume(pm.die)
+      b.make_partial_move(pm)
+      pm = self.guess_your_single_pm_from_dest(dest, b, available)
       if pm:
         pms.append(pm)
         return pms
-- 
2.43.0


From 3de8f34f621a5aac0870f250536ecce24bfd21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 10/54] fix: a move factory given no remaining dice took the
 whole roll again

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 84e2d60..197fae8 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -177,7 +177,7 @@ class MoveFactory(object):
       self.move = Move(src=move)
     else:
       self.move = Move()
-    if available:
+    if available is not None:
       self.available = AvailableToPlay(copy_src=available)
     else:
       self.available = AvailableToPlay(self.board.rolled)
-- 
2.43.0


From a3b4bc287f81088f3fbb229c2ccb17d21f845946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 11/54] fix: picking up the dice ignored the bar and plays by
 two chequers, and moved on the board

---
 bglib/model/move.py | 82 ++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 45 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 197fae8..a9a7489 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -204,57 +204,49 @@ class MoveFactory(object):
     assert self.board.rolled != (0, 0)
     if not self.available:
       return True
-    bar = util.move_pton('bar')
-    if self.board.has_chequer_to_move(bar):
-      if not self.guess_your_single_pm_from_source(bar):
-        return True #dance
-
-    for pt in POINTS:
-      if self.board.has_chequer_to_move(pt):
-        if self.guess_your_single_pm_from_source(pt):
-          return False
-          #if self.board.rolled[0] == self.board.rolled[1]:
-          #  print 'can move checker from', util.move_ntop(pt);
+    for pm in self._playable(self.board, self.available):
+      return False # some die can still be played.
 
     if self.board.is_doubles():
       return True
-            
-    #rewind all moves and check for blocked moves.
-    mf = MoveFactory(self.board, self.move, self.available)
-    inverses  = []
-    for pm in mf.move:
-      inverses.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
-    for i in inverses:
-      mf.append(i)
-
-    assert len(mf.move) == 0
-
-    # No need to check doubles.
-    # care only about small-big use.
-    # thus ...
-    for src in POINTS:
-      if mf.board.has_chequer_to_move(src):
-        for dst in range(0, src):
-          if mf.board.is_open_to_land(dst) or mf.board.is_hitting_to_land(dst):
-            pms = mf.guess_your_multiple_pms(src, dst)
-            if pms and len(pms) == 2:
-              # all dice are used.
-              # that means there is way to use all dice.
-              return False
-    # There is no way to use both dice
-    # Make sure use big one
-    # thus ... 
-    if self.available.get_max() != mf.available.get_max():
-      return True #max is used.
-
-    die = mf.available.get_max()
-    for src in POINTS:
-      if mf.board.has_chequer_to_move(src):
-        pm = mf.guess_your_single_pm_from_source(src, available=AvailableToPlay(rolled=(die, 0)))
-        if pm:
+
+    #rewind all moves and check for other plays of the roll.
+    start = BoardEditor(self.board)
+    for pm in self.move:
+      start.make_partial_move(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
+    roll = AvailableToPlay(self.board.rolled)
+
+    most = self._most_dice(start, roll)
+    if len(roll) - len(self.available) < most:
+      return False # There is a way to use more dice.
+    if most == 1 and roll.get_max() in self.available:
+      for pm in self._playable(start, roll):
+        if pm.die == roll.get_max():
           return False # There is way to use big one.
     return True
 
+  def _playable(self, b, available):
+    ''' partial moves that can be played on b with any of available dice '''
+    for die in range(6, 0, -1):
+      if die in available:
+        for src in range(BAR, OFF, -1):
+          pm = self.guess_your_single_pm_from_source(src, b, AvailableToPlay(rolled=(die, 0)))
+          if pm:
+            yield pm
+
+  def _most_dice(self, b, available):
+    ''' the largest number of available dice that can be played on b '''
+    most = 0
+    for pm in self._playable(b, available):
+      after = BoardEditor(b)
+      after.make_partial_move(pm)
+      rest = AvailableToPlay(rolled=None, copy_src=available)
+      rest.consume(pm.die)
+      most = max(most, 1 + self._most_dice(after, rest))
+      if most == len(available):
+        break
+    return most
+
   def guess_your_single_pm_from_source(self, src, b=None, available=None):
     '''
     returns
-- 
2.43.0


From 19b5695fc9b2f13a2b422729ce8de7214ad92a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 12/54] fix: a step refused for want of its die was still
 recorded in the move

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index a9a7489..e1bce26 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -188,11 +188,11 @@ class MoveFactory(object):
 
   def append(self, pm):
     assert(isinstance(pm, PartialMove))
-    self.move.append(pm)
     if pm.is_undo():
       self.available.add(pm.die)
     else:
       self.available.consume(pm.die)
+    self.move.append(pm)
     self.board.make_partial_move(pm)
 
   def add(self, mv):
-- 
2.43.0


From 278cd35d2d8988395745c8ab063d60053df617a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 13/54] fix: boards are values but could not be hashed

---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 0ec3bc2..c017e38 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -216,7 +216,7 @@ class Board(AbstractBoard):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
   def __hash__(self):
-    pass
+    return hash(tuple([getattr(self, key) for key in self.defaults]))
 
   def __copy__(self):
     return self #immutable
-- 
2.43.0


From 8e24fbc8e02af090a72efd027616bea9c16cd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 14/54] fix: attributes of an immutable board could be deleted

---
 bglib/model/board.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index c017e38..43ec388 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -215,6 +215,9 @@ class Board(AbstractBoard):
   def __setattr__(self, name, value):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
+  def __delattr__(self, name):
+    raise TypeError('Tried to delete attr "%s" of immutable object'%(name,))
+
   def __hash__(self):
     return hash(tuple([getattr(self, key) for key in self.defaults]))
 
-- 
2.43.0


From 65290c36bbdae2598771ccf742a2d3ac632d190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 15/54] fix: deep-copying a board tried to mutate the copy

---
 bglib/model/board.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 43ec388..000718a 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -224,4 +224,7 @@ class Board(AbstractBoard):
   def __copy__(self):
     return self #immutable
 
+  def __deepcopy__(self, memo):
+    return self #immutable
+
 
-- 
2.43.0


From 886f1d8d09deeb95fa3e4c0cd207443d7a682cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 16/54] fix: patterns of a cookie given twice in RunState
 overwrote each other

Forty cookies are assigned twice or more in the class body, so lines of the
first form (every 'show settings' line, for instance) became FIBS_Unknown.
---
 bglib/protocol/fibs.py | 212 ++++++++++++++++++++++++-----------------
 1 file changed, 126 insertions(+), 86 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 8e4f4da..dcbd367 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -104,7 +104,10 @@ class RunState(State):
   FIBS_PlayerMoves = ["^[a-zA-Z_<>]+ moves"]
   FIBS_BearingOff = ["^Bearing off:"]
   FIBS_YouReject = ["^You reject\\. The game continues\\."]
-  FIBS_YouStopWatching = ["You're not watching anymore\\."]
+  FIBS_YouStopWatching = ["You're not watching anymore\\.",
+                          "^You stop watching ",
+                          "^\\*\\* You stop watching",
+                         ]
   # overloaded  //PLAYER logs out.. You're not watching anymore.
 
   FIBS_OpponentLogsOut = ["The game was saved\\."]
@@ -116,7 +119,9 @@ class RunState(State):
   FIBS_YouDouble = ["^You double\\. Please wait for "]
   # You double. Please wait for PLAYER to accept or reject.
 
-  FIBS_PlayerWantsToResign = ["^[a-zA-Z_<>]+ wants to resign\\. You will win [0-9]+ points?\\. Type 'accept' or 'reject'\\."]
+  FIBS_PlayerWantsToResign = ["^[a-zA-Z_<>]+ wants to resign\\. You will win [0-9]+ points?\\. Type 'accept' or 'reject'\\.",
+                              "wants to resign\\.",
+                             ]
   FIBS_WatchResign = ["^[a-zA-Z_<>]+ wants to resign\\. "]
   # PLAYER wants to resign. PLAYER2 will win 2 points.  (ORDER MATTERS HERE)
 
@@ -126,12 +131,13 @@ class RunState(State):
   FIBS_ResumeMatchAck5 = ["^You are now playing with [a-zA-Z_<>]+\\. Your running match was loaded\\."]
   FIBS_JoinNextGame = ["^Type 'join' if you want to play the next game, type 'leave' if you don't\\."]
   FIBS_NewMatchRequest = ["^[a-zA-Z_<>]+ wants to play a [0-9]+ point match with you\\."]
-  FIBS_WARNINGSavedMatch = ["^WARNING: Don't accept if you want to continue"]
+  FIBS_WARNINGSavedMatch = ["^WARNING: Don't accept if you want to continue",
+                            "^\\*\\* WARNING: Don't accept if you want to continue",
+                           ]
   FIBS_ResignRefused = ["rejects\\. The game continues\\."]
   FIBS_MatchLength = ["^match length:"]
   FIBS_TypeJoin = ["^Type 'join [a-zA-Z_<>]+' to accept\\."]
   FIBS_YouAreWatching = ["^You're now watching "]
-  FIBS_YouStopWatching = ["^You stop watching "]
   # overloaded
 
   FIBS_PlayerStartsWatching = ["[a-zA-Z_<>]+ starts watching [a-zA-Z_<>]+\\.",
@@ -161,7 +167,6 @@ class RunState(State):
   FIBS_MatchResult = ["^[a-zA-Z_<>]+ wins a [0-9]+ point match against "]
   #PLAYER wins a 9 point match against PLAYER  11-6 .
 
-  FIBS_PlayerWantsToResign = ["wants to resign\\."]
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
@@ -215,9 +220,10 @@ class RunState(State):
   FIBS_PlayerInfoStart = ["^Information about"]
   FIBS_EmailAddress = ["^  Email address:"]
   FIBS_NoEmail = ["^  No email address\\."]
-  FIBS_WavesAgain = ["^[a-zA-Z_<>]+ waves goodbye again\\."]
+  FIBS_WavesAgain = ["^[a-zA-Z_<>]+ waves goodbye again\\.",
+                     "^You wave goodbye again and log out\\.",
+                    ]
   FIBS_Waves = ["waves goodbye", "^You wave goodbye\\."]
-  FIBS_WavesAgain = ["^You wave goodbye again and log out\\."]
   FIBS_NoSavedGames = ["^no saved games\\."]
   FIBS_TypeBack = ["^You're away\\. Please type 'back'"]
   FIBS_SavedMatch = ["^  [a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +"]
@@ -225,41 +231,112 @@ class RunState(State):
   #  NOTE: for FIBS_SavedMatchReady, see the Stars message, because it will appear to be one of those (has asterisk at index 0).
   FIBS_PlayerIsWaitingForYou = ["^[a-zA-Z_<>]+ is waiting for you to log in\\."]
   FIBS_IsAway = ["^[a-zA-Z_<>]+ is away: "]
-  FIBS_AllowpipTrue = ["^allowpip +YES"]
-  FIBS_AllowpipFalse = ["^allowpip +NO"]
-  FIBS_AutoboardTrue = ["^autoboard +YES"]
-  FIBS_AutoboardFalse = ["^autoboard +NO"]
-  FIBS_AutodoubleTrue = ["^autodouble +YES"]
-  FIBS_AutodoubleFalse = ["^autodouble +NO"]
-  FIBS_AutomoveTrue = ["^automove +YES"]
-  FIBS_AutomoveFalse = ["^automove +NO"]
-  FIBS_BellTrue = ["^bell +YES"]
-  FIBS_BellFalse = ["^bell +NO"]
-  FIBS_CrawfordTrue = ["^crawford +YES"]
-  FIBS_CrawfordFalse = ["^crawford +NO"]
-  FIBS_DoubleTrue = ["^double +YES"]
-  FIBS_DoubleFalse = ["^double +NO"]
-  FIBS_MoreboardsTrue = ["^moreboards +YES"]
-  FIBS_MoreboardsFalse = ["^moreboards +NO"]
-  FIBS_MovesTrue = ["^moves +YES"]
-  FIBS_MovesFalse = ["^moves +NO"]
-  FIBS_GreedyTrue = ["^greedy +YES"]
-  FIBS_GreedyFalse = ["^greedy +NO"]
-  FIBS_NotifyTrue = ["^notify +YES"]
-  FIBS_NotifyFalse = ["^notify +NO"]
-  FIBS_RatingsTrue = ["^ratings +YES"]
-  FIBS_RatingsFalse = ["^ratings +NO"]
-  FIBS_ReadyTrue = ["^ready +YES"]
-  FIBS_ReadyFalse = ["^ready +NO"]
-  FIBS_ReportTrue = ["^report +YES"]
-  FIBS_ReportFalse = ["^report +NO"]
-  FIBS_SilentTrue = ["^silent +YES"]
-  FIBS_SilentFalse = ["^silent +NO"]
-  FIBS_TelnetTrue = ["^telnet +YES"]
-  FIBS_TelnetFalse = ["^telnet +NO"]
-  FIBS_WrapTrue = ["^wrap +YES"]
-  FIBS_WrapFalse = ["^wrap +NO"]
-  FIBS_Junk = ["^Closed old connection with user"]
+  FIBS_AllowpipTrue = ["^allowpip +YES",
+                       "^\\*\\* You allow the use the server's 'pip' command\\.",
+                      ]
+  FIBS_AllowpipFalse = ["^allowpip +NO",
+                        "^\\*\\* You don't allow the use of the server's 'pip' command\\.",
+                       ]
+  FIBS_AutoboardTrue = ["^autoboard +YES",
+                        "^\\*\\* The board will be refreshed",
+                       ]
+  FIBS_AutoboardFalse = ["^autoboard +NO",
+                         "^\\*\\* The board won't be refreshed",
+                        ]
+  FIBS_AutodoubleTrue = ["^autodouble +YES",
+                         "^\\*\\* You agree that doublets",
+                        ]
+  FIBS_AutodoubleFalse = ["^autodouble +NO",
+                          "^\\*\\* You don't agree that doublets",
+                         ]
+  FIBS_AutomoveTrue = ["^automove +YES",
+                       "^\\*\\* Forced moves will",
+                      ]
+  FIBS_AutomoveFalse = ["^automove +NO",
+                        "^\\*\\* Forced moves won't",
+                       ]
+  FIBS_BellTrue = ["^bell +YES",
+                   "^\\*\\* Your terminal will ring",
+                  ]
+  FIBS_BellFalse = ["^bell +NO",
+                    "^\\*\\* Your terminal won't ring",
+                   ]
+  FIBS_CrawfordTrue = ["^crawford +YES",
+                       "^\\*\\* You insist on playing with the Crawford rule\\.",
+                      ]
+  FIBS_CrawfordFalse = ["^crawford +NO",
+                        "^\\*\\* You would like to play without using the Crawford rule\\.",
+                       ]
+  FIBS_DoubleTrue = ["^double +YES",
+                     "^\\*\\* You will be asked if you want to double\\.",
+                    ]
+  FIBS_DoubleFalse = ["^double +NO",
+                      "^\\*\\* You won't be asked if you want to double\\.",
+                     ]
+  FIBS_MoreboardsTrue = ["^moreboards +YES",
+                         "^\\*\\* Will send rawboards after rolling\\.",
+                        ]
+  FIBS_MoreboardsFalse = ["^moreboards +NO",
+                          "^\\*\\* Won't send rawboards after rolling\\.",
+                         ]
+  FIBS_MovesTrue = ["^moves +YES",
+                    "^\\*\\* You want a list of moves after this game\\.",
+                   ]
+  FIBS_MovesFalse = ["^moves +NO",
+                     "^\\*\\* You won't see a list of moves after this game\\.",
+                    ]
+  FIBS_GreedyTrue = ["^greedy +YES",
+                     "^\\*\\* Will use automatic greedy bearoffs\\.",
+                    ]
+  FIBS_GreedyFalse = ["^greedy +NO",
+                      "^\\*\\* Won't use automatic greedy bearoffs\\.",
+                     ]
+  FIBS_NotifyTrue = ["^notify +YES",
+                     "^\\*\\* You'll be notified",
+                    ]
+  FIBS_NotifyFalse = ["^notify +NO",
+                      "^\\*\\* You won't be notified",
+                     ]
+  FIBS_RatingsTrue = ["^ratings +YES",
+                      "^\\*\\* You'll see how the rating changes are calculated\\.",
+                     ]
+  FIBS_RatingsFalse = ["^ratings +NO",
+                       "^\\*\\* You won't see how the rating changes are calculated\\.",
+                      ]
+  FIBS_ReadyTrue = ["^ready +YES",
+                    "^\\*\\* You're now ready to invite or join someone\\.",
+                   ]
+  FIBS_ReadyFalse = ["^ready +NO",
+                     "^\\*\\* You're now refusing to play with someone\\.",
+                    ]
+  FIBS_ReportTrue = ["^report +YES",
+                     "^\\*\\* You will be informed",
+                    ]
+  FIBS_ReportFalse = ["^report +NO",
+                      "^\\*\\* You won't be informed",
+                     ]
+  FIBS_SilentTrue = ["^silent +YES",
+                     "^\\*\\* You won't hear what other players shout\\.",
+                    ]
+  FIBS_SilentFalse = ["^silent +NO",
+                      "^\\*\\* You will hear what other players shout\\.",
+                     ]
+  FIBS_TelnetTrue = ["^telnet +YES",
+                     "^\\*\\* You use telnet",
+                    ]
+  FIBS_TelnetFalse = ["^telnet +NO",
+                      "^\\*\\* You use a client program",
+                     ]
+  FIBS_WrapTrue = ["^wrap +YES",
+                   "^\\*\\* Your terminal knows how to wrap",
+                  ]
+  FIBS_WrapFalse = ["^wrap +NO",
+                    "^\\*\\* The server will wrap",
+                   ]
+  FIBS_Junk = ["^Closed old connection with user",
+               "^\\*\\* You tell ",
+               "^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\.",
+              ]
   FIBS_Done = ["^Done\\."]
   FIBS_YourTurnToMove = ["^It's your turn to move\\."]
   FIBS_SavedMatchesHeader = ["^  opponent          matchlength   score \\(your points first\\)"]
@@ -269,8 +346,13 @@ class RunState(State):
   FIBS_FailedLogin = ["^> [0-9]+"]
   # bogus CLIP messages sent after a failed login
   
-  FIBS_Average = ["^Time (UTC)  average min max"]
-  FIBS_DiceTest = ["^[nST]: "]
+  FIBS_Average = ["^Time (UTC)  average min max",
+                  "^[0-9][0-9]:[0-9][0-9]-",
+                 ]
+  FIBS_DiceTest = ["^[nST]: ",
+                   "^[1-6]-1 [0-9]", # output of dicetest command
+                   "^[1-6]: [0-9]",
+                  ]
   FIBS_LastLogout = ["^  Last logout:"]
   FIBS_RatingCalcStart = ["^rating calculation:"]
   FIBS_RatingCalcInfo = ["^Probability that underdog wins:", 
@@ -313,12 +395,8 @@ class RunState(State):
                    "^5 [^ ]+ - [^ ]+ [01]",
                    ]
 
-  FIBS_Average = ["^[0-9][0-9]:[0-9][0-9]-"]
   # output of average command
 
-  FIBS_DiceTest = ["^[1-6]-1 [0-9]", # output of dicetest command
-                   "^[1-6]: [0-9]",
-                   ]
 
   FIBS_Stat = ["^[0-9]+ bytes", # output from stat command
                "^[0-9]+ accounts",
@@ -344,7 +422,6 @@ class RunState(State):
 
   # class StarsBatch(Batch):
   FIBS_Username = ["^\\*\\* User"]
-  FIBS_Junk = ["^\\*\\* You tell "]
   # "** You tell PLAYER: xxxxx"]
 
   FIBS_YouGag = ["^\\*\\* You gag"]
@@ -367,40 +444,6 @@ class RunState(State):
   FIBS_YouInvited = ["^\\*\\* You invited"]
   FIBS_YourLastLogin = ["^\\*\\* Last login:"]
   FIBS_NoOne = ["^\\*\\* There is no one called"]
-  FIBS_AllowpipFalse = ["^\\*\\* You don't allow the use of the server's 'pip' command\\."]
-  FIBS_AllowpipTrue = ["^\\*\\* You allow the use the server's 'pip' command\\."]
-  FIBS_AutoboardFalse = ["^\\*\\* The board won't be refreshed"]
-  FIBS_AutoboardTrue = ["^\\*\\* The board will be refreshed"]
-  FIBS_AutodoubleTrue = ["^\\*\\* You agree that doublets"]
-  FIBS_AutodoubleFalse = ["^\\*\\* You don't agree that doublets"]
-  FIBS_AutomoveFalse = ["^\\*\\* Forced moves won't"]
-  FIBS_AutomoveTrue = ["^\\*\\* Forced moves will"]
-  FIBS_BellFalse = ["^\\*\\* Your terminal won't ring"]
-  FIBS_BellTrue = ["^\\*\\* Your terminal will ring"]
-  FIBS_CrawfordFalse = ["^\\*\\* You would like to play without using the Crawford rule\\."]
-  FIBS_CrawfordTrue = ["^\\*\\* You insist on playing with the Crawford rule\\."]
-  FIBS_DoubleFalse = ["^\\*\\* You won't be asked if you want to double\\."]
-  FIBS_DoubleTrue = ["^\\*\\* You will be asked if you want to double\\."]
-  FIBS_GreedyTrue = ["^\\*\\* Will use automatic greedy bearoffs\\."]
-  FIBS_GreedyFalse = ["^\\*\\* Won't use automatic greedy bearoffs\\."]
-  FIBS_MoreboardsTrue = ["^\\*\\* Will send rawboards after rolling\\."]
-  FIBS_MoreboardsFalse = ["^\\*\\* Won't send rawboards after rolling\\."]
-  FIBS_MovesTrue = ["^\\*\\* You want a list of moves after this game\\."]
-  FIBS_MovesFalse = ["^\\*\\* You won't see a list of moves after this game\\."]
-  FIBS_NotifyFalse = ["^\\*\\* You won't be notified"]
-  FIBS_NotifyTrue = ["^\\*\\* You'll be notified"]
-  FIBS_RatingsTrue = ["^\\*\\* You'll see how the rating changes are calculated\\."]
-  FIBS_RatingsFalse = ["^\\*\\* You won't see how the rating changes are calculated\\."]
-  FIBS_ReadyTrue = ["^\\*\\* You're now ready to invite or join someone\\."]
-  FIBS_ReadyFalse = ["^\\*\\* You're now refusing to play with someone\\."]
-  FIBS_ReportFalse = ["^\\*\\* You won't be informed"]
-  FIBS_ReportTrue = ["^\\*\\* You will be informed"]
-  FIBS_SilentTrue = ["^\\*\\* You won't hear what other players shout\\."]
-  FIBS_SilentFalse = ["^\\*\\* You will hear what other players shout\\."]
-  FIBS_TelnetFalse = ["^\\*\\* You use a client program"]
-  FIBS_TelnetTrue = ["^\\*\\* You use telnet"]
-  FIBS_WrapFalse = ["^\\*\\* The server will wrap"]
-  FIBS_WrapTrue = ["^\\*\\* Your terminal knows how to wrap"]
   FIBS_PlayerRefusingGames = ["^\\*\\* [a-zA-Z_<>]+ is refusing games\\."]
   FIBS_NotWatching = ["^\\*\\* You're not watching\\."]
   FIBS_NotWatchingPlaying = ["^\\*\\* You're not watching or playing\\."]
@@ -416,13 +459,11 @@ class RunState(State):
   FIBS_MustMove = ["^\\*\\* You must give [1-4] moves"]
   FIBS_MustComeIn = ["^\\*\\* You have to remove pieces from the bar in your first move\\."]
   FIBS_UsersHeardYou = ["^\\*\\* [0-9]+ users? heard you\\."]
-  FIBS_Junk = ["^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\."]
   FIBS_SavedMatchReady = ["^\\*\\*[a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +[0-9]+"]
   # double star before a name indicates you have a saved game with this player
 
   FIBS_NotYourTurnToRoll = ["^\\*\\* It's not your turn to roll the dice\\."]
   FIBS_NotYourTurnToMove = ["^\\*\\* It's not your turn to move\\."]
-  FIBS_YouStopWatching = ["^\\*\\* You stop watching"]
   FIBS_UnknownCommand = ["^\\*\\* Unknown command:"]
   FIBS_CantWatch = ["^\\*\\* You can't watch another game while you're playing\\."]
   FIBS_CantInviteSelf = ["^\\*\\* You can't invite yourself\\."]
@@ -436,7 +477,6 @@ class RunState(State):
 
   FIBS_Ratings = ["^\\* *[0-9]+ +[a-zA-Z_<>]+ +[0-9]+\\.[0-9]+ +[0-9]+"]
   FIBS_NoSavedMatch = ["^\\*\\* There's no saved match with "]
-  FIBS_WARNINGSavedMatch = ["^\\*\\* WARNING: Don't accept if you want to continue"]
   FIBS_CantGagYourself = ["^\\*\\* You talk too much, don't you\\?"]
   FIBS_CantBlindYourself = ["^\\*\\* You can't read this message now, can you\\?"]
 
-- 
2.43.0


From 2cf9e7e100d753aea46a1e6eebfc8964a97ea246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 17/54] fix: a subscriber leaving from its handler made the
 next one miss the message

---
 bglib/protocol/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 7be76ed..48209d1 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -116,7 +116,7 @@ class Session(Transport):
     if self._termination_requested:
       self.terminated.set()
       thread.exit()
-    for subscriber in self.subscribers:
+    for subscriber in list(self.subscribers):
       try:
         f = getattr(subscriber, name)
       except AttributeError:
-- 
2.43.0


From b7b82ed4ec5baa66440505ec92e61d75b49b3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 18/54] fix: closing a session did not always signal
 termination

The event was set only when a message happened to arrive after close().
---
 bglib/protocol/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 48209d1..759b40b 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -109,6 +109,8 @@ class Session(Transport):
       logging.exception('exception in listener thread:')
     except:
       logging.exception('exception in listener thread:')
+    finally:
+      self.terminated.set()
     thread.exit()
 
   @synchronized_with(Transport.lock)
-- 
2.43.0


From 3f193ed59bca9fecb0ba5fb3a5a2b9631c656def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 19/54] fix: decoding a FIBS board on the opponent's turn
 raised NameError

---
 bglib/encoding/FIBS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 20c977e..cc9ea8c 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -118,7 +118,7 @@ def decode(m, s):
     m.rolled = fibs.his_dice
     m.on_action = HIM
     m.on_inner_action = HIM
-    m.game_state = bglib.model.constants.on_going
+    m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
     m.on_action = INVALID
-- 
2.43.0


From beeaf1e64644da15bf72400110e2c168874f8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 20/54] fix: decoding a FIBS board of a finished game raised
 NameError

---
 bglib/encoding/FIBS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index cc9ea8c..72bf2c2 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -121,7 +121,8 @@ def decode(m, s):
     m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
-    m.on_action = INVALID
+    m.on_action = CENTER
+    m.on_inner_action = CENTER
     m.game_state = FINISHED
     #m.game_state = bglib.model.constants.resigned
     #ugh! There is no way to define it
-- 
2.43.0


From 9769e8007de2051e20bd12e213ba4d997c322db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 21/54] fix: a double pending in the editor survived decoding a
 FIBS board without one

---
 bglib/encoding/FIBS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 72bf2c2..0a41a61 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -134,6 +134,8 @@ def decode(m, s):
       m.on_inner_action = HIM
     elif m.on_action == HIM:
       m.on_inner_action = YOU
+  else:
+    m.doubled = False
 
   m.resign_offer = RESIGN_NONE
   # can't define!
-- 
2.43.0


From a004038b2ac80f06df847400c80bb6417018690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 22/54] fix: get_taker_name never found the name

---
 bglib/encoding/FIBS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 0a41a61..9cd2d47 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -159,9 +159,9 @@ def get_name(got):
     return None
   return got[m.start():m.end()]
 
-taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accpets")
+taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accepts")
 def get_taker_name(got):
-  m = name_expr.search(got)
+  m = taker_name_expr.search(got)
   if m is None:
     return None
   try:
-- 
2.43.0


From c53671dec15d0eda1530b80156ac4f9cf2045c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 23/54] fix: get_score raised TypeError for every message

---
 bglib/encoding/FIBS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 9cd2d47..87ba7a5 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -192,7 +192,7 @@ def get_move(got, who):
 
 score_expr = re.compile("[0-9]+")
 def get_score(got):
-  score = score_expr.findall(got)
+  score = score_expr.findall(got)[0]
   return int(score)
 
 match_score_expr = re.compile("[0-9]+")
-- 
2.43.0


From 58a6502e7f23d79e09e08d47fe8de5d951fa10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 24/54] fix: get_move raised NameError, and counted the
 opponent's dice backwards

---
 bglib/encoding/FIBS.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 87ba7a5..9636eaf 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -7,6 +7,8 @@
 import re
 
 from bglib.model import BoardEditor
+from bglib.model import util
+from bglib.model.move import Move, PartialMove
 from bglib.model.constants import *
 
 class _FIBSBoardState(object):
@@ -171,20 +173,23 @@ def get_taker_name(got):
 
 def get_move(got, who):
   '''got = gBOTworldclass moves 22-off 24-off .'''
-  mv = bglib.model.move.Move()
+  mv = Move()
   for m in got.split(' ')[2:-1]:
     src, dest = m.split('-')
     is_hitting = dest.endswith('*')
     if is_hitting:
       dest = dest[:-1]
-    if who == bglib.model.constants.you:
-      src = bglib.model.util.move_pton(src)
-      dest = bglib.model.util.move_pton(dest)
-      pm = bglib.model.move.PartialMove(src-dest, src, dest, is_hitting)
-    elif who == bglib.model.constants.him:
-      src = bglib.model.util.move_pton(src)
-      dest = bglib.model.util.move_pton(dest)
-      pm = bglib.model.move.PartialMove(dest-src, src, dest, is_hitting)
+    src = util.move_pton(src)
+    dest = util.move_pton(dest)
+    if who == YOU:
+      pm = PartialMove(src-dest, src, dest, is_hitting)
+    elif who == HIM:
+      # points are numbered from your side, his move from his own
+      if src != BAR:
+        src = util.flip_point(src)
+      if dest != OFF:
+        dest = util.flip_point(dest)
+      pm = PartialMove(src-dest, src, dest, is_hitting)
     else:
       continue
     mv.append(pm)
-- 
2.43.0


From e7afaa58dee95f84395afc8dcac1490b5c723ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 25/54] fix: an XGID with a non-integer score raised TypeError
 instead of DecodeError

---
 bglib/encoding/xgid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 007b50e..4946666 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -115,7 +115,7 @@ def decode(model, s):
   try:
     model.score = (int(his_score), int(your_score))
   except ValueError:
-    raise bglib.encoding.DecodeError('got bad data, non interger score: %s '%(his_score, your_score,))
+    raise bglib.encoding.DecodeError('got bad data, non interger score: %s:%s '%(his_score, your_score,))
 
   try:
     is_crawford_jacoby = int(is_crawford_jacoby)
-- 
2.43.0


From 255599102ae446a707616c9739cfc17c8b89370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 26/54] fix: a double or resignation pending in the editor
 survived decoding an XGID

---
 bglib/encoding/xgid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 4946666..6618863 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -147,6 +147,9 @@ def decode(model, s):
   #UGH!
   model.on_inner_action = model.on_action
 
+  model.doubled = False
+  model.resign_offer = RESIGN_NONE
+
   '''
   #model.doubled = mp.doubled
   #model.resign_offer = mp.resign_offer
-- 
2.43.0


From de0dcfa1fee7613e8eefc870878963127aa97c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 27/54] fix: attributes of an immutable DatabaseBytesExpression
 could be deleted

---
 bglib/encoding/dbbyte.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/encoding/dbbyte.py b/bglib/encoding/dbbyte.py
index 2b8793e..377d196 100644
--- a/bglib/encoding/dbbyte.py
+++ b/bglib/encoding/dbbyte.py
@@ -88,6 +88,9 @@ class DatabaseBytesExpression(object):
   def __setattr__(self, name, value):
     raise TypeError('DatabaseBytesExpression is immutable')
 
+  def __delattr__(self, name):
+    raise TypeError('DatabaseBytesExpression is immutable')
+
   def tomodel(self):
     b = BoardEditor()
     for key in Board.defaults.keys():
-- 
2.43.0


From b6386fd65ee3f6d6015d5b5dcfec6cecd5a88a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 28/54] fix: bear-off parameters of a side with no chequers
 left raised IndexError

---
 bglib/encoding/bearoff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/__init__.py b/bglib/encoding/bearoff/__init__.py
index dec5e92..8701935 100644
--- a/bglib/encoding/bearoff/__init__.py
+++ b/bglib/encoding/bearoff/__init__.py
@@ -13,7 +13,7 @@ from tonic.combination import fact, C, C_Hash, C_RHash
 
 def backward(t):
   i = 24
-  while not t[i]:
+  while i >= 0 and not t[i]:
     i -= 1
   return i + 1
 
-- 
2.43.0


From c72615367e4a70d24664bb76962adb989ecba7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 29/54] fix: position ids with 6, 14 or 22 chequers on the
 board were too short

---
 bglib/encoding/gnubgid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 752b575..243b25f 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -55,8 +55,9 @@ def seq2bytes (xs):
       count += 1
       yield byte.pack()
   if byte.count != 0:
+    count += 1
     yield byte.pad()
-  while count < 9:
+  while count < 10:
     count += 1
     yield byte.pad()
 
-- 
2.43.0


From a0b725e103de8f422ea87f360341e75c7deecd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:38 +0000
Subject: [PATCH 30/54] fix: copies of an editor shared its fields, deep copies
 failed

---
 bglib/model/boardeditor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bglib/model/boardeditor.py b/bglib/model/boardeditor.py
index 322e447..a06ffbf 100644
--- a/bglib/model/boardeditor.py
+++ b/bglib/model/boardeditor.py
@@ -36,6 +36,12 @@ class BoardEditor(AbstractBoard):
     print '%s:%s'%(name, value)
     self.__dict__['_d'][name] = value
 
+  def __copy__(self):
+    return self.__class__(self)
+
+  def __deepcopy__(self, memo):
+    return self.__class__(self) # the values of the fields are immutable
+
   def freeze(self):
     return Board(**self._d)
 
-- 
2.43.0


From 9c48fc0d1b2624fef76d5928420d8be3af844132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 31/54] fix: nodes put in an outer element recorded the wrong
 parent, so later text went into closed elements

---
 bglib/doc/doctree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 2b97462..eaaf033 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -330,7 +330,7 @@ class Editor(object):
     node = self.current
     while node:
       if isinstance(node, *klasses):
-        self.current = node.parent
+        self.current = node.parent or self.root
         return
       node = node.parent
       #implicitly leaving node.
@@ -342,6 +342,7 @@ class Editor(object):
     c = self.current
     while c and not c.is_acceptable(node):
       c = c.parent
+    node.parent = c
     c.append(node)
     self.current = c
     return node
-- 
2.43.0


From 861cc920d3000425771a697a91d13da189643b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 32/54] fix: preformatted text was duplicated each time a page
 was rendered

---
 bglib/doc/bgwiki.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index c42bd5d..b6f59e6 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -84,7 +84,7 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
     bglib.doc.doctree.BgWikiElementNode.__init__(self, parent)
     self.editor = None
     self.buf = ''
-    self.wrapped = None
+    self.processor_name = None
     self.ret = ''
     self._known_formatters = dict(
          rst=bglib.doc.rst.Formatter,
@@ -94,17 +94,17 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
     return ''
 
   def close(self):
-    if self.wrapped is None:
-      self.prepare_formatter()
-    self.wrapped.parse(self.buf)
-    return self.wrapped.make_html()
+    # formatters accumulate what they parse, so every rendering needs a new one.
+    wrapped = self.prepare_formatter(self.processor_name)
+    wrapped.parse(self.buf)
+    return wrapped.make_html()
 
   def set_editor(self, editor):
     self.editor = editor
 
   def prepare_formatter(self, name=None):
     klass = self._known_formatters.get(name, PreformatFormatter)
-    self.wrapped = klass()
+    return klass()
 
   def parse(self, input_line):
     if input_line:
@@ -129,7 +129,7 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
 
   def _handle_pattern_processor_specifier(self, match, matchobj):
     d = matchobj.groupdict()
-    self.prepare_formatter(d['processor_name'])
+    self.processor_name = d['processor_name']
 
 
 
-- 
2.43.0


From b29aea861e9e93607f36de3c1b1b24184787edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 33/54] fix: link targets were escaped twice and the text of
 bare links not at all

---
 bglib/doc/bgwiki.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index b6f59e6..4adf0e0 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -462,13 +462,12 @@ class LineFormatter(BaseFormatter):
 
   def _handle_pattern_auto_anchor(self, match, matchobj):
     #t = string.Template('<a class="ext-link" href="$url"><span class="icon">$url</span></a>')
-    url=bglib.doc.html.escape(match)
     editor = self.editor
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':"title"})
-    a.set_url(url)
+    a.set_url(match) # attributes are escaped on output, text is not.
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(match)
+    editor.append_text(bglib.doc.html.escape(match))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
@@ -489,16 +488,16 @@ class LineFormatter(BaseFormatter):
     editor = self.editor
     d = matchobj.groupdict()
     if d['disp']:
-      disp = bglib.doc.html.escape(d['disp'][1:])
+      disp = d['disp'][1:]
     else:
-      disp = bglib.doc.html.escape(d['url_1'])
+      disp = d['url_1']
     #t = string.Template('''<a class="ext-link" href="$url"><span class="icon">$disp</span></a>''')
     #return t.substitute(url=bglib.doc.html.escape(d['url_1']), disp=disp)
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':disp})
-    a.set_url("%s"%bglib.doc.html.escape(d['url_1']))
+    a.set_url("%s"%d['url_1'])
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(disp)
+    editor.append_text(bglib.doc.html.escape(disp))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
-- 
2.43.0


From 69a6313498780946625bbfdf78f93f6d0bef3b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 34/54] fix: a quote in an attribute value ended the attribute

---
 bglib/doc/doctree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index eaaf033..f8daee6 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -66,7 +66,7 @@ class BgWikiElementNode(Node):
       return ''
     if self.attrs:
       import bglib.doc.html as html
-      attrs = ' '.join(['%s="%s"'%(key, html.escape(item)) for key, item in self.attrs.items()])
+      attrs = ' '.join(['%s="%s"'%(key, html.escape(item).replace('"', '&quot;')) for key, item in self.attrs.items()])
       #attrs = ' '.join(['%s="%s"'%(key, item) for key, item in self.attrs.items()])
     else:
       attrs = ''
-- 
2.43.0


From d0c89f32b621a55b664fafb600bebc3343e49e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 35/54] fix: a list item without a sign in a list of signs
 raised KeyError

---
 bglib/doc/doctree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index f8daee6..07565f5 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -156,11 +156,11 @@ class ItemizeElement(LineElement):
           (ListElement, ItemizeElement, TableElement, TableRowElement, TableHeaderElement, TableCellElement)
     
   def open(self):
-    style = self.attrs['style']
-    if style is None:
+    style = self.attrs.get('style', None)
+    m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
+    if style is None or m is None:
       return '<%s>'%(self.html_element)
     else:
-      m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
       return '<%s %s>'%(self.html_element, style[m])
 
 
-- 
2.43.0


From e707aff25fdae26d9e2617c14ce7d3b684b07957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:31 +0000
Subject: [PATCH 36/54] fix: an item after a deeper badly indented list was put
 one level too high

---
 bglib/doc/bgwiki.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 4adf0e0..893bb11 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -367,7 +367,11 @@ class LineFormatter(BaseFormatter):
     nest = self._unnest(indent, nest, bglib.doc.doctree.ListElement)
 
     if indent == nest:
-      editor.leave(bglib.doc.doctree.ItemizeElement)
+      # a list pushed to balance bad indentation has no item to leave.
+      found = editor.ancestor((bglib.doc.doctree.ListElement,
+                               bglib.doc.doctree.ItemizeElement))
+      if isinstance(found, bglib.doc.doctree.ItemizeElement):
+        editor.leave(bglib.doc.doctree.ItemizeElement)
     elif indent > nest:
       while indent > nest + 1:
         #bad indentation, push ListElement to balance.
-- 
2.43.0


From 3d0c5c28833c0fe69cd0a267e1c8aac86697f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:42 +0000
Subject: [PATCH 37/54] fix: Position and Analysis without arguments raised
 TypeError

---
 bglib/doc/macro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 70de7b1..0006f05 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -188,6 +188,8 @@ _arg_pattern = re.compile(
                       )
 
 def _parse_position(s):
+  if not s:
+    return None
   matchobj = _arg_pattern.match(s)
   if not matchobj:
     return None
-- 
2.43.0


From 7939cea944c5f79e1ca17e528795d61d5ad32d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 38/54] fix: text after a position was put into the position's
 element

---
 bglib/doc/macro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 0006f05..f9d908d 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -212,6 +212,7 @@ def Position(editor, args):
     return False
   editor.enter(bglib.doc.doctree.SpanElement, **{"class":"position"})
   editor.enter(bglib.doc.doctree.ImgElement, src='/image?'+urllib.urlencode(d, True))
+  editor.leave(bglib.doc.doctree.ImgElement)
   editor.leave(bglib.doc.doctree.SpanElement)
   return True
 register(Position)
-- 
2.43.0


From 3570de230723078826c7507661efcdbc762f82c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:01 +0000
Subject: [PATCH 39/54] fix: unregistering a macro raised AttributeError

---
 bglib/doc/macro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index f9d908d..58c87a0 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -38,7 +38,8 @@ def register(handler):
   _handlers.update({_get_name(handler):handler})
 
 def unregister(name, handler):
-  _handlers.remove(_get_name(handler))
+  if _handlers.get(name, None) is handler:
+    del _handlers[name]
 
 _db = None
 def setup(db):
-- 
2.43.0


From 754ecd5e925c62a708f0b7498d03c8811783c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 40/54] fix: a heading with formatted text broke the table of
 contents

---
 bglib/doc/macro.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 58c87a0..ceae196 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -125,16 +125,13 @@ class TocVisitor(bglib.doc.doctree.Visitor):
   def de_anchor(self, node, parent):
       if isinstance(node, bglib.doc.doctree.Text):
         return node
-      elif isinstance(node, bglib.doc.doctree.AnchorElement):
-        text = ''
-        for n in node.children:
-          if isinstance(n, bglib.doc.doctree.Text):
-            text += n.text
-        return bglib.doc.doctree.Text(parent, text=text)
-      else:
-        pass
-      return None
-        
+      return bglib.doc.doctree.Text(parent, text=self.text_of(node))
+
+  def text_of(self, node):
+      if isinstance(node, bglib.doc.doctree.Text):
+        return node.text
+      return ''.join([self.text_of(n) for n in node.children])
+
 
   def enter(self, node):
     editor = self.editor
-- 
2.43.0


From 5796d635d452696c34c2847364bb5bf21ddbb003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 41/54] fix: headings before a table of contents got their ids
 only on the second rendering

---
 bglib/doc/macro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index ceae196..2d64336 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -173,7 +173,8 @@ class TableOfContentNode(bglib.doc.doctree.BgWikiElementMacroNode):
 
 
 def TableOfContent(editor, args):
-  editor.append(TableOfContentNode, editor=editor)
+  node = editor.append(TableOfContentNode, editor=editor)
+  node.open() # headings before the table need their ids before they are written.
   return True
 register(TableOfContent)
 
-- 
2.43.0


From e9365bb9d9c81027cbf474851a94ba26d5171c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 42/54] fix: comparing html could depend on the order of
 attributes

---
 bglib/doc/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/html.py b/bglib/doc/html.py
index e990235..1393a91 100644
--- a/bglib/doc/html.py
+++ b/bglib/doc/html.py
@@ -74,7 +74,7 @@ def tupdict(normalized):
   for matchobj in r_tag_or_text.finditer(normalized):
     d = matchobj.groupdict('')
     if 'tag' in d and d['element']:
-      r.append((d['element'], dictify_attr(d['attribute_list'])))
+      r.append((d['element'], tuple(sorted(dictify_attr(d['attribute_list'])))))
     elif 'text' in d and d['text']:
       r.append(('text', d['text'].strip()))
   return tuple(r)
-- 
2.43.0


From 858d22ed13dd6abd74751338a41d18e9aeeaf40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 43/54] fix: comparing html overlooked an ampersand at the
 start

---
 bglib/doc/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/html.py b/bglib/doc/html.py
index 1393a91..275478d 100644
--- a/bglib/doc/html.py
+++ b/bglib/doc/html.py
@@ -38,7 +38,7 @@ ATTRVALUE = r'(?P<attrvalue>[a-zA-Z0-9:;./\-]+)'
 ATTRIBUTE = r'(?P<attribute>' + ATTRNAME + '="' + ATTRVALUE + '")'
 ATTRIBUTE_LIST = '(?P<attribute_list>(' + ATTRIBUTE + '[ ]*)*)'
 TAG = '(?P<tag><' + ELEMENT + '( ' +  ATTRIBUTE_LIST + ')?>)'
-TEXT = '(?P<text>[^<>&]*)'
+TEXT = '(?P<text>[^<>]*)'
 TAG_OR_TEXT = '(' + TAG + '|' + TEXT + ')'
 
 r_attribute =re.compile(ATTRIBUTE)
-- 
2.43.0


From 0af9bd43314f0b1353991ca3ee71750c179ec6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:51 +0000
Subject: [PATCH 44/54] fix: a line after nested citations stayed in the outer
 ones

---
 bglib/doc/bgwiki.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 893bb11..7feef7f 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -217,7 +217,8 @@ class LineFormatter(BaseFormatter):
         editor.leave((bglib.doc.doctree.BlockQuoteElement, 
                       bglib.doc.doctree.DefinitionBodyElement))
       if input_line[0] not in '>':
-        editor.leave((bglib.doc.doctree.CitationElement, ))
+        self._unnest(0, editor.count_nesting(bglib.doc.doctree.CitationElement),
+                     bglib.doc.doctree.CitationElement)
 
       if input_line.endswith('::'):
         self.start_definition_header()
-- 
2.43.0


From 7da99953faf23963ca45309f408e729c4058eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 45/54] fix: drawing failed for some picture sizes because of
 rounding errors

---
 bglib/image/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 7e4647d..4b6e4fb 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -313,8 +313,9 @@ class Board(BaseElement):
     assert xmag > 0.0
     assert ymag > 0.0
     self.mag = min(xmag, ymag)
-    assert self.width * self.mag <= bound[0]
-    assert self.height * self.mag <= bound[1]
+    # compared as drawn: the products may exceed the bounds by a rounding error.
+    assert self.apply_mag(self.width) <= bound[0]
+    assert self.apply_mag(self.height) <= bound[1]
 
 Element.register(Board)
 
-- 
2.43.0


From a007288531feb109a98e24d00f07fd5e9fb7dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 46/54] fix: a style rule could not replace the image or font
 set by an earlier one

---
 bglib/image/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 4b6e4fb..be15596 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -228,9 +228,7 @@ class BaseElement(object):
     for name, value in d.items():
       if name not in self.DTD_ATTLIST:
         raise KeyError('no such attribute %s in %s'%(name, self.name))
-      a = self.attributes.get(name, self.DTD_ATTLIST[name](css_path=css_path))
-      assert a
-      v = a.parse(value)
+      v = self.DTD_ATTLIST[name](css_path=css_path).parse(value)
       setattr(self, name, v)
 
   def format(self, indent):
-- 
2.43.0


From b4f742e1c651cd813e710985944b13b872caea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 47/54] fix: an attribute selector with a value of another type
 stopped the drawing

---
 bglib/image/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index be15596..7d92582 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -62,7 +62,10 @@ class BaseAttribute(object):
   def __str__(self):
     return str(self.get())
   def is_match(self, value):
-    return self.parse(value) == self.get()
+    try:
+      return self.parse(value) == self.get()
+    except (TypeError, ValueError):
+      return False
   def is_acceptable(self, v):
     return False
   __repr__ = __str__
-- 
2.43.0


From 6810887c14bda89b97672fc91e339b972ad0cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 48/54] fix: a uri without quotes raised IndexError, even in a
 selector

---
 bglib/image/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 7d92582..b785d58 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -131,7 +131,10 @@ class URIAttribute(StringAttribute):
     return isinstance(v, str)
   def parse(self, s):
     dir = os.path.dirname(self.css_path)
-    fn = s.split('"')[1]
+    quoted = s.split('"')
+    if len(quoted) < 2:
+      raise ValueError('%s got bad uri %s'%(self.name, s))
+    fn = quoted[1]
     return os.path.join(dir, fn)
   
 class BoolAttribute(BaseAttribute):
-- 
2.43.0


From 4e04f417585573c4fab950dcd24572f4d22ff68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:01 +0000
Subject: [PATCH 49/54] fix: a style value of False meant True

---
 bglib/image/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index b785d58..6bd89c5 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -139,7 +139,10 @@ class URIAttribute(StringAttribute):
   
 class BoolAttribute(BaseAttribute):
   def parse(self, s):
-    return bool(s)
+    try:
+      return {'true':True, 'false':False}[s.lower()]
+    except KeyError:
+      raise ValueError('%s got bad value %s'%(self.name, s))
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
@@ -154,8 +157,6 @@ class FillAttribute(InheritMixIn, BoolAttribute):
 class HideCountAttribute(BoolAttribute):
   default = False
   name = 'hide_count'
-  def parse(self, s):
-    return bool(s)
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
-- 
2.43.0


From d8519c1759a87fd6202f1938b77f1ae43ba52a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:01 +0000
Subject: [PATCH 50/54] fix: fill had no default in an element whose parent has
 no such attribute

---
 bglib/image/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 6bd89c5..5b19bba 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -287,7 +287,8 @@ class BaseElement(object):
       a = self.attributes.get(name, None)
       if a:
         return a.get()
-      elif self.DTD_ATTLIST[name].is_inherit() and self.parent is not None:
+      elif self.DTD_ATTLIST[name].is_inherit() and \
+           self.parent is not None and name in self.parent.DTD_ATTLIST:
         return getattr(self.parent, name)
       else:
         try:
-- 
2.43.0


From a244c7aa858cec75afb3a7d73ddfcacc39d1bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:01 +0000
Subject: [PATCH 51/54] fix: setting another board left the previous one in the
 picture

---
 bglib/image/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 5b19bba..5415e59 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -728,7 +728,16 @@ class ElementTree(object):
         r.apply(path)
     self.visit(apply, [self.board])
 
+  def clear(self):
+    for e in self.score + self.bar + self.home + self.field + \
+             [self.length, self.crawford, self.action, self.cubeholder]:
+      del e.children[:]
+    for pt in self.points[1:]:
+      del pt.children[1:] # keeps its number.
+    self.action.attributes.pop('player', None)
+
   def set(self, board):
+    self.clear()
     self.score[YOU].append(str(board.score[YOU]))
     self.score[HIM].append(str(board.score[HIM]))
     self.length.append(str(board.match_length))
-- 
2.43.0


From 80fd6733bb43929466efcb49ae9c658ca332f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:50 +0000
Subject: [PATCH 52/54] fix: an attribute selector on an image or font set
 before stopped the drawing

---
 bglib/image/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 5415e59..b2f4561 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -130,10 +130,10 @@ class URIAttribute(StringAttribute):
     #FIXME
     return isinstance(v, str)
   def parse(self, s):
-    dir = os.path.dirname(self.css_path)
     quoted = s.split('"')
     if len(quoted) < 2:
       raise ValueError('%s got bad uri %s'%(self.name, s))
+    dir = os.path.dirname(self.css_path)
     fn = quoted[1]
     return os.path.join(dir, fn)
   
-- 
2.43.0


From c030e53c23a07ad17f94ba2b66e27a2a322c4b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:24 +0000
Subject: [PATCH 53/54] fix: a closed session terminates even when its listener
 is about to wait for the socket

---
 bglib/protocol/session.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 759b40b..e415126 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -19,6 +19,7 @@ class Timeout(Exception):
   pass
 
 CRLF = '\r\n'
+POLLING_INTERVAL = 0.2 # seconds. how often the listener looks if it is closed.
 
 def synchronized_with(accessor):
   def bind(critical_section):
@@ -64,7 +65,8 @@ class Transport(telnetlib.Telnet):
 
   @synchronized_with(lock)
   def close(self):
-    telnetlib.Telnet.close(self)
+    # closing a socket does not always wake up who is waiting for it;
+    # the listener closes it.
     self._active = False
     self._termination_requested = True
     
@@ -97,7 +99,10 @@ class Session(Transport):
       while True:
         if not self.is_active():
           break
-        nth, matchobj, s = self.expect([CRLF, 'login: '])
+        nth, matchobj, s = self.expect([CRLF, 'login: '], POLLING_INTERVAL)
+        if matchobj is None and not self.eof:
+          self.cookedq = s + self.cookedq # the line is not complete yet.
+          continue
         if not nth:
           s = s[:-2] # remove CRLF
         self._dispatch(self.monster.make_cookie(s), s)
@@ -110,6 +115,7 @@ class Session(Transport):
     except:
       logging.exception('exception in listener thread:')
     finally:
+      telnetlib.Telnet.close(self)
       self.terminated.set()
     thread.exit()
 
-- 
2.43.0


From 80588a3595eb0c5221e6ef5cb0549365b37844e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:23 +0000
Subject: [PATCH 54/54] fix: positions of fifteen chequers could not be found
 from their number

---
 bglib/encoding/bearoff/nori.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 2f90d2b..52003fa 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -32,7 +32,7 @@ def oneside_upto6_t2k(t):
 
 
 def oneside_upto6_k2t(n):
-  for c in range(15):
+  for c in range(16):
     if n < sigmaD[c]:
       k = 0
       xs = [0, 0, 0, 0, 0, 0]
-- 
2.43.0

