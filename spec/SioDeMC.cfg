SPECIFICATION Spec
INVARIANT Substitution Unaffected NoDangling Converted
CHECK_DEADLOCK FALSE
