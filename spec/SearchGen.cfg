INIT Init
NEXT NoStep
CHECK_DEADLOCK FALSE
INVARIANT Emit
CONSTANTS
  N = 2
  MaxIgnored = 0
  AllQueries = FALSE
