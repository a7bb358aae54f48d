SPECIFICATION MCSpec
CONSTANT CaseOf <- MCCase
CONSTANT Cases <- EachByte
CHECK_DEADLOCK FALSE
INVARIANTS PiecesTell StoryRight FailRight Bounds EveryCallReturns
