SPECIFICATION Spec
INVARIANT Check
CHECK_DEADLOCK FALSE
