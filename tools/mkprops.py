#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing; not used by any check)."""
import json, os
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in state],
                               observe_at=list(observe), hook_needed=hook)))

prop("B01", "Turn, cube and resignation protocol",
     """From any ongoing game, rolling, doubling, taking, dropping, offering, accepting and rejecting a resignation
     and passing the turn are allowed exactly for the player whose decision it is (a pending double or resignation
     hands the decision to the opponent; no double in the Crawford game, with a dead cube, with the opponent's cube or
     while one is pending; nothing after the game ended), the two players being treated alike. A permitted action changes exactly
     the documented fields: a take doubles the cube and gives it to the taker, a drop scores the undoubled cube for the doubler,
     an accepted resignation scores cube times 1, 2 or 3 for the acceptor, a rejected one hands the decision back, and passing the turn
     clears the dice and swaps both turn markers; a forbidden action is refused and leaves the board as it was.""",
     ["histories", "inputs"], "every board state (scores, match length, cube, owner, Crawford, dice, pending double or resignation, either player) and every sequence of actions from it",
     "The tests walk a handful of hand-made boards for one player; the property is about every history and both players.",
     ["bglib/model/board.py", "bglib/model/boardeditor.py"],
     [("is_leagal_to_double / is_leagal_to_roll / is_leagal_to_move / is_cube_take_or_pass / is_leagal_to_redouble / is_leagal_to_resign / is_to_accept_resign", "bglib/model/board.py"),
      ("double / take / drop / offer_resign / accept_resign / reject_resign / pickupdice", "bglib/model/boardeditor.py")],
     [("on_action, on_inner_action", "whose turn it is, whose decision is awaited"), ("doubled, resign_offer, rolled, cube_*, score, game_state", "pending offers and the score")],
     ["public methods and attributes of Board/BoardEditor"])

prop("B02", "Partial moves conserve chequers and undo exactly",
     """Making a legal partial move takes one chequer of the mover from the source and puts it on the destination (or off), and when it hits it moves exactly one
     opposing chequer from the same physical point to the opponent's bar; nothing else on the board changes.
     Each side always accounts for its fifteen chequers, making the reverse partial move restores the board exactly,
     flipping the board twice is the identity, and flipping sides before or after a move gives the same result for either player.""",
     ["inputs", "histories"], "every legal position, either player on action, every legal partial move and every sequence of moves, undos and flips",
     "make_partial_move tests use assert_(x, y), which never compares; hits, entering, bearing off and undo are not tested at all.",
     ["bglib/model/boardeditor.py", "bglib/model/util.py"],
     [("make_partial_move, make, flip", "bglib/model/boardeditor.py"), ("flip_point", "bglib/model/util.py")],
     [("position", "pair of 25-tuples (24 points and the bar), each from its owner's viewpoint")], ["BoardEditor.position"])

prop("B03", "Movement predicates agree with the rules of backgammon",
     """On every position and for either player on action: a point is open exactly when the opponent has fewer than two chequers there and is a hit exactly when he has one
     (bearing off is always open and never a hit); a chequer may move from a point only if one is there and none waits on the bar.
     Bearing off from an occupied point with a die is allowed exactly when all the mover's chequers are home and the die is exact or the point is the farthest one and the die is larger;
     the bear-off source found for a die is the point the rules dictate, and none is found when the die cannot bear off.""",
     ["inputs"], "every position, both players, every point and every die",
     "Tests sample the initial position and one bear-off position with player 'you' only.",
     ["bglib/model/board.py"],
     [("is_open_to_land, is_hitting_to_land, has_chequer_to_move, is_ok_to_bearoff_from, find_src_of_bearoff_with", "bglib/model/board.py")],
     [], ["return values of the public predicates"])

prop("B04", "A turn's move ledger stays consistent with board and dice",
     """While a turn is entered step by step, with partial moves appended, whole moves added and steps undone in any order, the board always equals the starting board with the recorded move applied,
     and the dice still available plus those used by the recorded move always equal the roll (four of a kind for doubles).
     Undoing a step cancels it from the record instead of adding to it, undoing everything restores the starting board and the full roll, and a die that is not available is never consumed.""",
     ["histories"], "every roll, starting position and sequence of legal partial moves, moves and undos, for either player",
     "Tests follow a few scripted turns and compare printed strings; histories with interleaved undo of hits, entries and doubles are not sampled.",
     ["bglib/model/move.py", "bglib/model/boardeditor.py"],
     [("MoveFactory.append/add", "bglib/model/move.py"), ("Move.append/add", "bglib/model/move.py"), ("AvailableToPlay.consume/add", "bglib/model/move.py")],
     [("move, available, board", "the ledger of the turn")], ["MoveFactory.board, .move, .available"])

prop("B05", "Suggested partial moves are legal and asking has no side effect",
     """Whatever a move factory suggests, from a source, towards a destination, as a chain of steps, as an undo or to make a point, is made of partial moves that are legal in sequence with the dice at hand
     (right die, movable chequer, open landing, correct hit flag, bear-off allowed), starting and ending where asked; a suggested undo retraces recorded steps.
     A single step is suggested with the largest die that works and refused only when none does, a chain to a board point is refused only when no chain of one chequer reaches it, and an undo only when taking back the latest steps does not lead there.
     Asking never changes the board, the recorded move, the available dice or the arguments.""",
     ["inputs", "histories"], "every position, roll, remaining dice, source, destination and player",
     "Tests sample about twenty positions for one player and do not look at the board after a query.",
     ["bglib/model/move.py"],
     [("guess_your_single_pm_from_source/_dest, guess_your_multiple_pms, guess_your_multiple_partial_undoes, guess_your_making_point", "bglib/model/move.py")],
     [], ["returned PartialMove/Move/Error values", "MoveFactory.board/.move/.available before and after"])

prop("B06", "Dice may be picked up exactly after a complete legal play",
     """After a turn of legal partial moves, picking up the dice is allowed exactly when the play is complete under the rules: no unused die can be played any more,
     as many dice were used as any play of the roll could use, and when only one of two different dice can be played it was the larger if that was possible.
     Asking the question changes nothing, and picking up clears the dice and passes the turn.""",
     ["inputs", "histories"], "every position, roll and partial play of it, for either player, including entering, dancing and bearing off",
     "Six hand-made positions cover single-chequer plays only; the rule quantifies over all plays of the roll.",
     ["bglib/model/move.py"], [("is_leagal_to_pickup_dice, pickupdice", "bglib/model/move.py")], [], ["return value, board after the call"])

prop("B07", "Frozen boards are immutable values; editors are independent",
     """A board value never changes once built: every attempt to set an attribute fails and leaves it unchanged, copying yields an equal board, and building it from an editor (or an editor from it) preserves every field.
     Later changes to an editor affect neither the boards frozen from it, nor the boards or editors it was made from, nor other editors or the defaults.
     Two boards are equal exactly when all twelve fields are equal, inequality is the negation of equality, and equal boards can be used interchangeably as dictionary keys.""",
     ["histories", "inputs"], "every history of constructing, editing, freezing, copying and comparing boards",
     "Tests compare two boards and try one assignment whose failure they swallow along with their own assertion.",
     ["bglib/model/board.py", "bglib/model/boardeditor.py"],
     [("AbstractBoard.__eq__/__ne__, Board.__new__/__setattr__/__hash__/__copy__", "bglib/model/board.py"), ("BoardEditor.__init__/__getattr__/__setattr__/freeze", "bglib/model/boardeditor.py")],
     [], ["attributes, ==, !=, hash, copy.copy"])

prop("B08", "Notation conversions are exact inverses and reject nonsense",
     """Point numbers, 'bar', 'off' and the home/bar names convert to internal indices and back without loss, for both move notation and each player's view of the board, and the same physical point has numbers adding up to 25 for the two players.
     Points beyond 24 and words that name no point are rejected with ValueError (move notation reads 0 and 25 as home and bar), the opponent of the opponent is the player, and a partial move or move prints as source/destination with a star exactly for hits.""",
     ["inputs"], "every point, player and malformed value",
     "Tests check a few values by hand.",
     ["bglib/model/util.py", "bglib/model/move.py"], [("position_pton/ntop, move_pton/ntop, flip_point, get_opp", "bglib/model/util.py"), ("PartialMove.__str__, Move.__str__", "bglib/model/move.py")])

prop("E01", "FIBS board lines decode to the board they describe",
     """Any well-formed FIBS board line, for either colour, direction, turn, cube ownership and pending double, decodes to the board it describes: chequers and bars seen from each player, dice of the player to act, cube value and owner, match length, score and whose decision is awaited.
     The result depends only on the line, not on what the editor held before, and the two ways of numbering the board give the same position.""",
     ["inputs", "histories"], "every well-formed board line and every earlier content of the board editor",
     "Two sample lines, both with the reader's own turn and direction -1.",
     ["bglib/encoding/FIBS.py"], [("_FIBSBoardState, decode", "bglib/encoding/FIBS.py")], [], ["fields of the BoardEditor after decode"])

prop("E02", "Database byte encoding round-trips every board",
     """Encoding a board to its database byte form and back yields an equal board for every legal position and either player on action; the 26 bytes describe the position from the side on action, so mirrored boards share the same bytes.
     The encoded form cannot be modified, and the distance of two encodings is the sum of squared differences: zero exactly for identical positions and symmetric.""",
     ["inputs"], "every legal position, player and combination of the other fields", "Tests encode a few fixed positions.",
     ["bglib/encoding/dbbyte.py"], [("encode_position, decode_position, distance, signedchr/signedord, DatabaseBytesExpression", "bglib/encoding/dbbyte.py")])

prop("E03", "XGID decoding is exact and rejects malformed ids",
     """Every well-formed XGID decodes to the board it describes, the uppercase player (turn 1, cube owner 1, first score) being consistently one side and the lowercase player the other, independent of what the editor held before.
     A malformed XGID (wrong field count or position length, a non-numeric cube, owner, turn, score, Crawford flag or match length, an owner or turn that is no player's) is always refused with one of the documented decoding errors and no other exception.""",
     ["inputs", "histories"], "every XGID string, well-formed or damaged in any field, and every earlier editor content",
     "Valid samples are compared with another decoder that cannot be imported here; malformed ids are not tested.",
     ["bglib/encoding/xgid.py"], [("decode, decode_position", "bglib/encoding/xgid.py")])

prop("E04", "GNU Backgammon position and match ids round-trip",
     """Encoding any board as GNU Backgammon position and match ids and decoding them gives back an equal board, position ids are 14 characters that decode to the position they encode for either player on action, different positions get different ids,
     and the ids follow GNU Backgammon's published bit layout. A money game with a non-zero score is refused as inconsistent.""",
     ["inputs"], "every legal position and combination of match fields", "The tests cannot run here (missing dependency) and sample a few ids.",
     ["bglib/encoding/gnubgid.py"], [("encode, decode, encode_position, decode_position, MatchProxy", "bglib/encoding/gnubgid.py")])

prop("E05", "Bear-off indexing is one-to-one and database reads are exact",
     """The one-sided bear-off index of GNU Backgammon numbers the positions with a given number of points and at most a given number of chequers one-to-one with no gaps.
     Reading record n (from zero) of a bear-off database returns exactly its own bytes and reading beyond the file raises IndexError; bear-off parameters are the farthest occupied point and the larger chequer count.""",
     ["inputs"], "every one-sided position within the bounds, every record index", "Tests cannot run here and compare single numbers.",
     ["bglib/encoding/bearoff/__init__.py", "bglib/encoding/bearoff/gnubgdb.py"],
     [("oneside_index, bearoff_param, f", "bglib/encoding/bearoff/gnubgdb.py"), ("DBReader.rawread, backward, count", "bglib/encoding/bearoff/__init__.py")])

prop("E06", "Fields are read correctly out of FIBS messages",
     """For every message of the documented shape, the reader returns exactly the dice, player name, name of the player who accepted, match scores and length, resigned points and the partial moves (source, destination, die and hit) that the message states.
     A message without a name yields none.""",
     ["inputs"], "every message of the documented forms", "No test calls these functions.",
     ["bglib/encoding/FIBS.py"], [("get_dice, get_name, get_taker_name, get_move, get_score, get_match_scores, get_resign_score", "bglib/encoding/FIBS.py")])

prop("E07", "The home-board numbering is one-to-one and ordered",
     """The number given to a home-board position of up to fifteen chequers is how many positions come before it: positions with fewer chequers come first, and among those with as many the farthest point
     on which two positions differ decides, fewer chequers there coming first. So the 54264 positions get the numbers 0 to 54263, each once, and the position found for a number is the one that has it.""",
     ["inputs"], "every home-board position with at most fifteen chequers and every number of one", "The tests look at some single-chequer positions and two ends; some of them contradict each other.",
     ["bglib/encoding/bearoff/nori.py"], [("oneside_upto6_t2k, oneside_upto6_k2t, sigmaD", "bglib/encoding/bearoff/nori.py"), ("D, count", "bglib/encoding/bearoff/__init__.py")],
     [], ["return values of the two functions"])

prop("P01", "FIBS lines are classified soundly in every session history",
     """Whatever lines a FIBS server sends and in whatever order, each is given exactly one cookie: one whose pattern matches at its start among those valid in the current phase, else the phase's default; a line that only one pattern of the phase matches always gets that cookie, independent of history.
     The phase advances from login to message of the day to running and back to login exactly on the documented lines, and nothing else changes it.""",
     ["histories", "inputs"], "every sequence of server lines, including ones no pattern matches",
     "One test reads one transcript and asserts nothing about the cookies.",
     ["bglib/protocol/fibs.py"], [("CookieMonster.make_cookie, State.make_cookie / candidates", "bglib/protocol/fibs.py")],
     [("current state, last_match, regexp_cache", "phase, most-recently-used order and compiled patterns")], ["returned cookie names"])

prop("P02", "Session delivers every message once, in order, to current subscribers",
     """Every message received is delivered exactly once and in arrival order to each subscriber registered when its delivery begins that handles it, in registration order, and to nobody else, also when subscribers register or unregister (themselves or others) from inside a handler or from other threads (one unregistered before its turn may be left out).
     After the session is closed nothing more is delivered and termination is signalled.""",
     ["schedules", "histories"], "every interleaving of message arrival, registration, unregistration and closing",
     "Tests register one subscriber against one server and need a child process that does not start here.",
     ["bglib/protocol/session.py"], [("Session._listener, _dispatch, register, unregister; Transport.close; synchronized_with", "bglib/protocol/session.py")],
     [("subscribers, _active, _termination_requested, terminated", "registry and life cycle")], ["subscriber callbacks, terminated event"])

prop("R01", "Snowie match files are accepted exactly when well-formed",
     """Feeding a Snowie text record line by line accepts every sequence the format allows (a match header, then games, each with its score line and moves numbered from one without gaps) and rejects it at the first line that does not belong there or that exceeds the size limit; what is accepted is digested completely.
     Splitting a match record yields its games, in order and complete.""",
     ["histories", "inputs"], "every sequence of lines", "The tests cannot import the module here.",
     ["bglib/record/snowietxt.py"], [("Validator, chop, statevalidate", "bglib/record/snowietxt.py")])

prop("D01", "Document tree editing keeps a well-formed tree",
     """Whatever sequence of entering, leaving and appending an editor performs, the document stays a single tree: every node appears once, under the element it was put in, in the order added, and its recorded parent is the element containing it.
     The editor's position is always an element of the tree, leaving an element closes exactly up to it, nesting counts equal the real number of enclosing elements of that kind, and nothing already in the tree is lost or moved.""",
     ["histories"], "every sequence of editing operations", "Tests build three small trees.",
     ["bglib/doc/doctree.py"], [("Editor.enter/leave/append/append_text/count_nesting, Node/Element methods", "bglib/doc/doctree.py")])

prop("D02", "Wiki formatting always yields well-formed, stable HTML",
     """Formatting any wiki text yields HTML whose tags are balanced and properly nested and whose markup consists only of the formatter's own elements.
     The result is a function of the text alone: asking again, feeding it line by line or at once, or formatting after other texts, gives the same output.""",
     ["inputs", "histories"], "every input text, of any length and mix of constructs, and every sequence of calls",
     "Tests compare fixed snippets; fuzz tests run a few random strings without checking well-formedness.",
     ["bglib/doc/bgwiki.py", "bglib/doc/doctree.py"], [("Formatter.make_html, LineFormatter, *FormatterElement", "bglib/doc/bgwiki.py"), ("Element.html", "bglib/doc/doctree.py")])

prop("D03", "User text is escaped and survives formatting",
     """Text a user writes in a wiki page can never become markup: every <, > and & of it reaches the output escaped exactly once wherever it occurs, in paragraphs, lists, tables, headings, links and preformatted blocks,
     and quotes never end an attribute early.
     Plain words are neither lost, duplicated nor reordered, and preformatted text is kept verbatim (apart from a line naming its processor, #!name).""",
     ["inputs"], "every input text", "Tests check a few escaped characters in paragraphs.",
     ["bglib/doc/bgwiki.py", "bglib/doc/html.py", "bglib/doc/doctree.py"], [("text and link handlers", "bglib/doc/bgwiki.py"), ("escape", "bglib/doc/html.py")])

prop("D04", "Wiki block structure follows the markup",
     """The nesting of headings, paragraphs, lists, definition lists, citations, tables and preformatted blocks in the output is the one the line markup dictates: list depth follows indentation and marker kind, citation depth the number of markers, blocks end at blank lines or when another block begins.""",
     ["inputs", "histories"], "every sequence of line kinds", "Tests compare fixed snippets.",
     ["bglib/doc/bgwiki.py", "bglib/doc/doctree.py"], [("LineFormatter rules and FormatterElements", "bglib/doc/bgwiki.py")])

prop("D05", "HTML helpers normalise and compare consistently",
     """Escaping then unescaping any text is the identity and escaped text contains no markup characters; normalising only rearranges line breaks (each follows a tag's end), is idempotent and never changes the sequence of tags and words.
     Two documents compare equal exactly when their normal forms are equal, tags compare equal exactly when they agree in name and attributes, in whatever order those are written, and validation accepts exactly the fragments whose tags are balanced.""",
     ["inputs"], "every string", "Fixed snippets only.", ["bglib/doc/html.py"], [("escape, normalize, cmp", "bglib/doc/html.py")])

prop("D06", "Macros dispatch by name and never break the page",
     """A macro call in a wiki page is answered by the handler registered last under that name, with exactly the arguments written; an unknown macro, or one whose handler reports failure, leaves an error message in place instead of an exception or broken HTML, and unregistering removes a handler only if it is the one registered.
     A table of contents lists the page's headings in order and nesting, wherever it stands.""",
     ["inputs", "configurations"], "every macro name, argument text and page", "Fixed calls only.",
     ["bglib/doc/macro.py", "bglib/doc/bgwiki.py"], [("macro registry and dispatch, TableOfContents", "bglib/doc/macro.py")])

prop("D07", "Analysis tables show the analysis",
     """An Analysis macro looks up the position and match written in it and writes, for a play, one table with two rows for every move, and for a cube decision a table of the cubeless chances and one with a row for every action:
     in the analysis's order, numbered, each with its own move or action, ply, equity, difference (left out when zero or missing) and the six chances, equities signed with three decimals and chances with one.
     The rows of the actual decision, and only those, are marked as such, the others even or odd by number; every table is a rectangle, and the text around the tables stays.""",
     ["inputs", "configurations"], "every analysis of any number of rows, on pages with any number of them", "One analysis of each kind is formatted.",
     ["bglib/doc/macro.py"], [("Analysis, CubelessEquity, CubeAction_table_row, Movelisting_row", "bglib/doc/macro.py"), ("_parse_position", "bglib/doc/macro.py")],
     [], ["the HTML of the page"])

prop("I01", "Style rules cascade like CSS",
     """For every style sheet and element tree, a rule applies to exactly the elements its selector matches (type, conditions on the attributes given to the element, text, ancestors), later rules override earlier ones attribute by attribute, an unset attribute is inherited from the parent when it is inheritable and otherwise takes its default,
     and values are converted to the attribute's type or refused.
     An element takes exactly the content and attributes its type declares, and the DTD declares the same.""",
     ["inputs", "configurations"], "every style sheet and element tree", "Tests apply four small sheets.",
     ["bglib/image/css.py", "bglib/image/base.py"], [("CSSParser, Selector, Rule, apply", "bglib/image/css.py"), ("Element attributes", "bglib/image/base.py")])

prop("I02", "The board picture's element tree shows the board exactly",
     """For every board, the element tree built for drawing places every chequer of each side on the point (or bar or home) it stands on, shows the cube with its value at its owner's place, the dice with the player to act, the score, length, Crawford flag and next action, and the resignation or pending double (in front of who answers it) when there is one.
     Setting a new board leaves nothing of the previous one, the printed tree shows the same, and a board whose opponent acts before the roll with neither a double nor a resignation to answer is refused.""",
     ["inputs", "histories"], "every board and every sequence of boards shown", "Tests set a few boards.",
     ["bglib/image/base.py"], [("ElementTree.set", "bglib/image/base.py")])

prop("I03", "Drawing is complete and scales to the size asked for",
     """Drawing a board under any complete style sheet emits, element by element, exactly the backgrounds, images, shapes and texts the styled elements call for (chequers up to the maximum and their number beyond it, the dots of the dice, the cube's value, ...), whatever was drawn before.
     Every length is the sheet's times one factor, truncated, and the factor is the greatest for which the board fits in the size asked for.""",
     ["inputs", "configurations"], "every board and magnification", "One or two sizes drawn, output unchecked.",
     ["bglib/image/base.py", "bglib/image/draw.py"], [("draw methods", "bglib/image/base.py"), ("Draw", "bglib/image/draw.py")])

prop("I04", "The picture device puts every call where it belongs",
     """Drawing to a picture, the device carries out every call on a canvas of the size asked for, in order: rectangles cover exactly the dots of their box, ellipses, polygons and pictures lie at the place and in the size given,
     pictures turned over exactly when asked and pasted through their own transparency if they have one; a text stands in the middle of its box in the largest size of its font that fits there, and is left out when not even size eight does.
     Pictures and fonts kept from earlier calls never show: the canvas is the same as if everything were loaded anew.""",
     ["histories", "inputs"], "every history of drawing calls and of pictures, sizes and directions, and every board under any style sheet", "No test touches the device (its imaging library is not installed).",
     ["bglib/image/PIL.py", "bglib/image/draw.py"], [("Draw (calc_font_size, draw_text, load_image, paste_image, draw_rect, draw_ellipse)", "bglib/image/PIL.py")],
     [("cache", "fonts and images loaded so far"), ("dc", "the canvas being drawn")], ["operations that reach the imaging library"])

prop("S01", "Knockout rounds take one life per match and keep everyone accounted for",
     """In every round of a multi-life knockout each living player plays at most one match and at most one (the odd one out) none; exactly one life is lost per match, by one of its two players.
     Players whose lives are used up move from the living to the dead and never return, nobody is ever lost or duplicated, so the field always shrinks to one winner.""",
     ["histories", "inputs"], "every number of entries, lives, ratings and every outcome of the draws and matches", "A seeded simulation is run a few times.",
     ["bglib/stat/tourney.py"], [("Tourney.round, Player", "bglib/stat/tourney.py")], [("alive, dead", "partition of the entrants")], ["Tourney.alive, .dead, Player.lives"])

prop("S02", "Rating chances and stakes are consistent",
     """Upset and winning chance of a match are complementary, between 0 and 1, one half for equals, and fall or rise monotonically with rating gap and match length; the points the two players stake on a match sum to its length.
     The chance of winning or reaching the final of a tournament never exceeds one, an average entrant is neither favoured nor handicapped, and prize and fee handicaps make every entrant's expectation that of the average.""",
     ["inputs"], "every pair of ratings, length and number of rounds", "A few numbers are compared.",
     ["bglib/stat/rating.py", "bglib/stat/tourney.py"], [("upset_chance, winning_chance, gain_on_win", "bglib/stat/rating.py"), ("tourney_chance, prize_handicap, entryfee_handicap", "bglib/stat/tourney.py")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
