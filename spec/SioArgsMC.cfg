SPECIFICATION Spec
INVARIANT Numbered Faithful NoTrace ReadBack Exactly
CHECK_DEADLOCK FALSE
