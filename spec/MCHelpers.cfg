SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
INVARIANTS
  RemovesExactly
  EscapesExactly
  EscapeInverse
  EscapeRemove
  NoBareQuote
  Decimal
