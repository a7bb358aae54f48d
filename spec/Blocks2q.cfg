SPECIFICATION MCSpec
CONSTANT CaseOf <- MCCase
CONSTANT Cases <- Blocks2q
CHECK_DEADLOCK FALSE
INVARIANTS MetaRight WholeRight PiecesRight EndRight HeaderRight MemoryRight MemoryExact ErrorsRight OptionsRight SameAsCompressed FaultKinds Progress
