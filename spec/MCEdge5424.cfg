SPECIFICATION ESpec
CHECK_DEADLOCK FALSE
VIEW EView
CONSTANTS
  MaxHost = 2
  MaxApp = 2
  MaxProc = 2
  MaxMsgid = 2
  MaxName = 2
  Shrink = 0
  AllBytes = TRUE
INVARIANTS
  AcceptsGrammar
  Unambiguous
  FieldsVerbatim
  FailsAtLastByte
  NoEarlyFailure
  KindByRegion
  CompletedExact
  NoLateAcceptance
  BestEffortExact
  ModesAgree
  NoBomNoChange
