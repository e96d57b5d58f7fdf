SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  TypeOK
  Decomposes
  Named
  Distinct
  ValidExactly
