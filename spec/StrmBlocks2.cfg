SPECIFICATION MCSpec
CONSTANT CaseOf <- MCCase
CONSTANT Cases <- ByByte2
CHECK_DEADLOCK FALSE
INVARIANTS PiecesTell StoryRight FailRight Bounds EveryCallReturns
