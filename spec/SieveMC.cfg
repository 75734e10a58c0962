SPECIFICATION Spec
CONSTANTS
  Deviations = {"nonnum0", "stringkeys", "nocapture", "existsbadname", "spamcount", "nearest", "leave", "prologue"}
  CaseOf <- TCaseOf
  StatOf <- TStatOf
INVARIANTS Report Properties NoStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
