SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ExactReport GoodPaths OneEach ExactGraph ExactNodes
CONSTANTS
  N = 2
  MaxIgnored = 1
  AllQueries = TRUE
