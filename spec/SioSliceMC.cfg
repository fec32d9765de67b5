SPECIFICATION Spec
INVARIANT Content
CHECK_DEADLOCK FALSE
