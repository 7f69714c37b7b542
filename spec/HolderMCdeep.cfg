SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Reported Sharing Wellformed
PROPERTIES Isolated
