SPECIFICATION Spec
CONSTANT MaxBumps = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
