SPECIFICATION Spec
INVARIANT Survives
CONSTANT SetCode = 9
