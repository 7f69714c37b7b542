SPECIFICATION Spec
INVARIANTS Shape Confined
CONSTANT SetCode = 9
