SPECIFICATION Spec
INVARIANT Check
CHECK_DEADLOCK FALSE
CONSTANT Slabs = {1, 2, 3, 4}
