SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReaderN = 2
  Caches = FALSE
  Asks = 3
  Changes = 2
  Readers <- ReadersC
  Ops <- OpsC
INVARIANTS
  Functional
  NoRace
  OnlyReads
