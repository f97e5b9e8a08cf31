SPECIFICATION Spec
INVARIANTS OnlyMatched LastWins NotMatchedKept Types Inherit NoInherit Refusal
CONSTANTS MaxRules = 2
CHECK_DEADLOCK FALSE
