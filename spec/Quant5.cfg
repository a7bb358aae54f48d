SPECIFICATION Spec
CONSTANT Kinds <- Kinds6
CONSTANT Longest = 5
CONSTANT Counts <- Edges
CHECK_DEADLOCK FALSE
INVARIANTS SimpleRight ShowsRight
