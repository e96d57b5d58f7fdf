SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHost = 2
  MaxTag = 2
  Shrink = 2
INVARIANTS
  AcceptsGrammar
  Unambiguous
  FieldsExact
  FailsAtLastByte
  NoEarlyFailure
  KindByRegion
  BestEffortExact
  ModesAgree
  RfcOnlyAdds
