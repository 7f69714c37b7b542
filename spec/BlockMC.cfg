SPECIFICATION Spec
INVARIANTS SameRead SameWrite
CONSTANT SetCode = 9
CHECK_DEADLOCK FALSE
