SPECIFICATION MCSpec
CONSTANT Cases <- Orders3
CHECK_DEADLOCK FALSE
INVARIANTS SerializerAllowed PrefixRight OkRight ErrorRight OnlyAccepted FileRight Progress
PROPERTY BeginAllowed
