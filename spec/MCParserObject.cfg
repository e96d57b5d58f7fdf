SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Format = "5424"
  Workers = 2
  CallsEach = 2
  SharedC = TRUE
  LockedC = TRUE
  ResetsC = TRUE
  CopiesC = TRUE
  FreshC = TRUE
INVARIANTS
  Functional
  Exclusive
  BufferKept
