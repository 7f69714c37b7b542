SPECIFICATION Spec
INVARIANTS Constructed Laws
CONSTANT SetCode = 9
