SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHost = 2
  MaxApp = 2
  MaxProc = 2
  MaxMsgid = 2
  MaxName = 2
  MaxOps = 3
INVARIANTS
  FieldsGrammatical
  HeaderFrame
  ElementFrame
  RoundTrip
  OrderFree
