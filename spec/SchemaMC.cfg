SPECIFICATION Spec
INVARIANT Accepts
PROPERTY InOrder
