SPECIFICATION Spec
CONSTANT Depth = 4
CONSTANT Alphabet <- Everything
CHECK_DEADLOCK FALSE
INVARIANTS ResultsRight GoodRight LimitRight
