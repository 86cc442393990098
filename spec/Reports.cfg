SPECIFICATION Spec
CONSTANT MaxActs = 2
INVARIANTS Fixed Emit
CHECK_DEADLOCK FALSE
