SPECIFICATION MCSpec
CONSTANT CaseOf <- MCCase
CONSTANT Cases <- ByByte3
CHECK_DEADLOCK FALSE
INVARIANTS PiecesTell StoryRight FailRight Bounds EveryCallReturns
