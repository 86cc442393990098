SPECIFICATION Spec
INVARIANT SplineDefinition
INVARIANT Emit
CHECK_DEADLOCK FALSE
