SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
INVARIANTS
  AcceptsExactly
  Unambiguous
  RoundTrip
  KnownTrailer
