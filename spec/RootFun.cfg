SPECIFICATION Spec
INVARIANT RootExists
INVARIANT Emit
CHECK_DEADLOCK FALSE
