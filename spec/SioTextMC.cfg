SPECIFICATION Spec
INVARIANT RoundTrip NothingIgnored Total
CHECK_DEADLOCK FALSE
