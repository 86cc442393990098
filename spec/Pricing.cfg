SPECIFICATION Spec
INVARIANTS Answers Emit
CHECK_DEADLOCK FALSE
