SPECIFICATION TSpec
CONSTANTS
  Deviations = {"nonnum0", "stringkeys", "nocapture", "existsbadname", "spamcount", "nearest", "leave", "prologue"}
  CaseOf <- TCaseOf
  StatOf <- TStatOf
INVARIANT Report
CHECK_DEADLOCK FALSE
