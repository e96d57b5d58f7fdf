SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOpts = 3
  Reaches = TRUE
INVARIANTS
  AsGiven
  AsMade
  Modes
  NoConcern
