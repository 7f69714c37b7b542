SPECIFICATION Spec
INVARIANT Correct
PROPERTY Terminates
CONSTANTS MaxPrefix = 3 MaxCalls = 3
