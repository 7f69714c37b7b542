SPECIFICATION Spec
INVARIANT Conforms
CONSTANT SetCode = 9
