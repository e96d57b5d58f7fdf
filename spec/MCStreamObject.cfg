SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Forgets = TRUE
  MaxBytes = 5
  MaxUses = 3
INVARIANTS
  AsNew
  InOrder
  Complete
