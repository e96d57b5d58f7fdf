SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Workers = 2
  CallsEach = 1
  SharedC = FALSE
  ResetsC = TRUE
INVARIANTS
  Functional
  BufferKept
