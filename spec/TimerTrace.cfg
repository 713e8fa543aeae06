SPECIFICATION Spec
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
