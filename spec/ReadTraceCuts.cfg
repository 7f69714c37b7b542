SPECIFICATION Spec
INVARIANT Cuts
CONSTANT SetCode = 9
