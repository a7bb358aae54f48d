SPECIFICATION Spec
CONSTANT Starts <- SmallStarts
CONSTANT CodeChoice <- AllCodes
CONSTANT Depth = 3
CHECK_DEADLOCK FALSE
INVARIANTS Agree PackedRight
