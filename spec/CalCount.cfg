SPECIFICATION Spec
CONSTANT MaxSpan = 45
INVARIANTS ClosedForm Bounded NonNegative Additive Emit
CHECK_DEADLOCK FALSE
