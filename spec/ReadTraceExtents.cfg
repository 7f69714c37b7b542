SPECIFICATION Spec
INVARIANT Extents
CONSTANT SetCode = 9
