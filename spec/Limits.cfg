SPECIFICATION Spec
INVARIANTS Conforms Sound
