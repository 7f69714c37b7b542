SPECIFICATION Spec
CONSTANTS
  MaxDepth = 3
  MaxParts = 2
  MaxBlocks = 4
INVARIANTS Owned Clean
PROPERTY Treats
