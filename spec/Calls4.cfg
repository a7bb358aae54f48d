SPECIFICATION MCSpec
CONSTANT CaseOf <- MCCase
CONSTANT Cases <- Calls4
CHECK_DEADLOCK FALSE
INVARIANTS MetaRight WholeRight PiecesRight EndRight HeaderRight MemoryRight MemoryExact ErrorsRight OptionsRight SameAsCompressed FaultKinds Progress
