SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Framing = "octet"
  Alphabet = {49, 50, 32, 60}
  MaxBytes = 6
  Hoard = FALSE
  ReadsOn = FALSE
INVARIANTS
  Prompt
  NotEarly
  NoMoreReads
  OneBehind
PROPERTIES
  Delivered1
  Delivered2
  Returns
