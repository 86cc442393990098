SPECIFICATION Spec
CONSTANT MaxSteps = 14
CONSTANT MaxDays = 20
CONSTANT LongStep = 83
INVARIANTS OnBusinessDay CountAgrees Increasing Emit
CHECK_DEADLOCK FALSE
