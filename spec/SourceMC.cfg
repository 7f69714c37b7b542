SPECIFICATION Spec
CONSTANTS SetCode = 9
INVARIANTS Outcome NoReadAhead Patient
PROPERTIES Progress
