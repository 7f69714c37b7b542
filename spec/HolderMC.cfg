SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Reported Sharing Wellformed
PROPERTIES Isolated
