SPECIFICATION Spec
CONSTANT Starts <- FullStarts
CONSTANT CodeChoice <- KindsOf
CONSTANT Depth = 2
CHECK_DEADLOCK FALSE
INVARIANTS Agree PackedRight
