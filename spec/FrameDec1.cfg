SPECIFICATION Spec
CONSTANT Depth = 2
CONSTANT Alphabet <- Everything
CHECK_DEADLOCK FALSE
INVARIANTS ResultsRight GoodRight LimitRight
