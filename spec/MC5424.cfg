SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHost = 2
  MaxApp = 2
  MaxProc = 2
  MaxMsgid = 2
  MaxName = 2
  Shrink = 3
INVARIANTS
  AcceptsGrammar
  Unambiguous
  FieldsVerbatim
  FailsAtLastByte
  NoEarlyFailure
  KindByRegion
  BestEffortExact
  ModesAgree
  NoBomNoChange
