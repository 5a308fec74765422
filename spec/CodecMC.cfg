SPECIFICATION Spec
INVARIANTS RoundTrip Strict Emit
CHECK_DEADLOCK FALSE
