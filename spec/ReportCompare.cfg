SPECIFICATION Spec
CONSTANTS MaxEdits = 2
INVARIANTS Symmetric Reflexive Emit
CHECK_DEADLOCK FALSE
