SPECIFICATION Spec
INVARIANT Verdict
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHost = 255
  MaxTag = 32
  Chunk = 16
