SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {48, 49, 50, 51, 32, 60, 120}
  MaxBytes = 6
  Fills = 2
INVARIANTS
  Lossless
  Announced
  WholeNumber
  OneByte
  Sticky
  ChunkFree
  AllRead
  FramingAgrees
