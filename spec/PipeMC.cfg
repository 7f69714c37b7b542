SPECIFICATION Spec
INVARIANT RoundTrip
CONSTANT SetCode = 9
CHECK_DEADLOCK TRUE
