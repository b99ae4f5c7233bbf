INIT FInit
NEXT FNext
INVARIANT Claimed
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
