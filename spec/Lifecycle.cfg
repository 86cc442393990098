CONSTANT MaxActs = 3
SPECIFICATION Spec
INVARIANTS Staged Settles Emit
CHECK_DEADLOCK FALSE
