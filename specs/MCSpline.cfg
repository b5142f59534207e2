SPECIFICATION Spec
INVARIANTS EndPos EndVel EndAcc Ends
CHECK_DEADLOCK FALSE
