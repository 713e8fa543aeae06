SPECIFICATION Spec
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
CONSTANT Judge = "all"
