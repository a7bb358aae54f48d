SPECIFICATION Spec
CONSTANT Starts <- SmallStarts
CONSTANT CodeChoice <- AllCodes
CONSTANT Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Agree PackedRight
