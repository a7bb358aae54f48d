SPECIFICATION TraceSpec
CONSTANT CaseOf <- TraceCase
CHECK_DEADLOCK FALSE
INVARIANTS PosOk ExtOk ImgOk
