SPECIFICATION Spec
INVARIANTS OnlyMatched LastWins NotMatchedKept Types Inherit NoInherit Refusal
CONSTANTS MaxRules = 3
CHECK_DEADLOCK FALSE
