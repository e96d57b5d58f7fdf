SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {60, 10, 0, 120}
  MaxBytes = 7
  Fills = 2
INVARIANTS
  FramesDelivered
  InnerTrailers
  TailOnce
  Whole
  ChunkFree
