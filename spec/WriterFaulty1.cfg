SPECIFICATION MCSpec
CONSTANT Cases <- Faulty1
CHECK_DEADLOCK FALSE
INVARIANTS SerializerAllowed PrefixRight OkRight ErrorRight OnlyAccepted FileRight Progress
PROPERTY BeginAllowed
