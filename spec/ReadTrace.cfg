SPECIFICATION TSpec
CONSTANTS
  Deviations = {}
INVARIANTS Report WellFormed
CHECK_DEADLOCK FALSE
