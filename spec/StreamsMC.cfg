SPECIFICATION Spec
CONSTANTS N = 3
          L = 2
INVARIANT Separate
PROPERTIES Private AllEnd
CHECK_DEADLOCK FALSE
