SPECIFICATION Spec
INVARIANT AtEnd
CHECK_DEADLOCK FALSE
