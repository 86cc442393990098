SPECIFICATION Spec
CONSTANTS MaxActs = 2
          Moves = TRUE
          Full = TRUE
INVARIANTS Restored SavesOnce Emit
CHECK_DEADLOCK FALSE
