CONSTANTS DEPTH = 14
NVAL = 3
FIELDS = {"position", "cube_in_logarithm", "cube_owner", "on_action", "crawford", "game_state", "on_inner_action", "doubled", "resign_offer", "rolled", "match_length", "score"}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
