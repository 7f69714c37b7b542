SPECIFICATION Spec
CONSTANTS
  Longest = 4
  Alphabet = {0, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
  Structs = {}
  SetCode = 10
INVARIANTS SameAsScan ExactlyScalars
CHECK_DEADLOCK FALSE
