SPECIFICATION MCSpec
CONSTANT CaseOf <- MCCase
CONSTANT Cases <- Pieces
CHECK_DEADLOCK FALSE
INVARIANTS PiecesTell StoryRight FailRight Bounds EveryCallReturns
