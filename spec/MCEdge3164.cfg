SPECIFICATION ESpec
CHECK_DEADLOCK FALSE
VIEW EView
CONSTANTS
  MaxHost = 2
  MaxTag = 2
  Shrink = 0
  AllBytes = TRUE
INVARIANTS
  AcceptsGrammar
  Unambiguous
  FieldsExact
  FailsAtLastByte
  NoEarlyFailure
  KindByRegion
  CompletedExact
  NoLateAcceptance
  BestEffortExact
  ModesAgree
  RfcOnlyAdds
