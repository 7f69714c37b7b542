SPECIFICATION Spec
CONSTANTS SetCode = 9
N = 3
INVARIANTS Independent Ordered
