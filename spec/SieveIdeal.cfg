SPECIFICATION TSpec
CONSTANTS
  Deviations = {}
  CaseOf <- TCaseOf
  StatOf <- TStatOf
INVARIANT Report
CHECK_DEADLOCK FALSE
