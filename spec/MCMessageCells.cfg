SPECIFICATION Spec
VIEW AView
CHECK_DEADLOCK FALSE
CONSTANTS
  InPlace = FALSE
  MaxHost = 2
  MaxApp = 2
  MaxProc = 2
  MaxMsgid = 2
  MaxName = 2
  MaxOps = 2
INVARIANTS
  Types
  Values
  Elsewhere
  SetMeans
  SdStays
  RoundTrip
