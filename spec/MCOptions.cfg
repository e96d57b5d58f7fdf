SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOpts = 4
INVARIANTS
  DeclaredMeaning
  OrderFree
  LateIsEarly
  ModeKnown
  OnlyGiven
