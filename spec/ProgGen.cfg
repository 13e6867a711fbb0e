SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFuncs = 9
  MaxCalls = 16
  Shape = "rich"
