SPECIFICATION Spec
INVARIANT Bracket
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
