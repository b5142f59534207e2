SPECIFICATION WSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
