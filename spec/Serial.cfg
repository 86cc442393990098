CONSTANTS
  FirstDoc = 1
  LastDoc = 20
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
