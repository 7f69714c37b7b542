SPECIFICATION Spec
CONSTANT SetCode = 9
INVARIANTS CleanPrefix Complete
PROPERTIES Terminates
