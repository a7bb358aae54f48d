SPECIFICATION Spec
CONSTANT Starts <- FullStarts
CONSTANT CodeChoice <- KindsOf
CONSTANT Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Agree PackedRight
