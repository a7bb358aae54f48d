SPECIFICATION MCSpec
CONSTANT CaseOf <- MCCase
CONSTANT Cases <- Windows5
CHECK_DEADLOCK FALSE
INVARIANTS PiecesTell StoryRight FailRight Bounds EveryCallReturns
