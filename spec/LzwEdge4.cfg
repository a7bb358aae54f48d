SPECIFICATION Spec
CONSTANT Starts <- EdgeStarts
CONSTANT CodeChoice <- KindsOf
CONSTANT Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Agree PackedRight
