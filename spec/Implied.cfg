SPECIFICATION ImpliedSpec
CONSTANT MaxActs = 2
INVARIANTS Fixed Forgotten EmitImplied
CHECK_DEADLOCK FALSE
