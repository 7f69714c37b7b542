SPECIFICATION Spec
INVARIANT Kept
