SPECIFICATION Spec
INVARIANTS Outcome View
CONSTANT SetCode = 9
