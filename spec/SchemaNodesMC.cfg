SPECIFICATION Spec
INVARIANTS Levels Columns Places Found
