SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {48, 49, 50, 51, 32, 60, 120}
  MaxBytes = 7
  Limit <- LimitDef
  Fills = 2
INVARIANTS
  UniqueFrames
  FramesDelivered
  OneErrorEnds
  ErrorIsDeviation
  MaxRespected
  BestEffortSame
  TailExact
  ChunkFree
