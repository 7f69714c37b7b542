SPECIFICATION Spec
INVARIANTS TypeOK Honest
PROPERTY Monotone
CONSTANT SetCode = 9
CHECK_DEADLOCK TRUE
