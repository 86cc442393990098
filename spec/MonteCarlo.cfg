SPECIFICATION Spec
CONSTANT MaxActs = 2
INVARIANTS Restored Alive Emit
CHECK_DEADLOCK FALSE
