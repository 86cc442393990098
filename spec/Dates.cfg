SPECIFICATION Spec
CONSTANT LastDay = 72999
INVARIANTS TypeOK ClosedForm WeekdayForm Emit
PROPERTY Ordered
CHECK_DEADLOCK FALSE
