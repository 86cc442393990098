SPECIFICATION Spec
CONSTANTS MaxActs = 1
          MaxLive = 13
          Narrow = FALSE
INVARIANTS Traced Emit
CHECK_DEADLOCK FALSE
