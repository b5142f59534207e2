SPECIFICATION HSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
