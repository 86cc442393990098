SPECIFICATION Spec
CONSTANT Known = 18000
CONSTANT MaxOps = 2
CONSTANT MaxPoints = 2
CONSTANT Ids = {"BP.L", "GSK.L"}
INVARIANTS Supplied Kept
PROPERTY Stable
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
