SPECIFICATION Spec
INVARIANT Agreement
