SPECIFICATION Spec
INVARIANT Verdict
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHost = 255
  MaxTag = 32
  MaxApp = 48
  MaxProc = 128
  MaxMsgid = 32
  MaxName = 32
