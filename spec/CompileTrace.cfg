SPECIFICATION TSpec
CONSTANTS
  Deviations = {}
INVARIANT Report
CHECK_DEADLOCK FALSE
