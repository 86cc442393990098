SPECIFICATION Spec
INVARIANT Functional
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
