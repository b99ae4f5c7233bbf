INIT MInit
NEXT MNext
INVARIANT Claimed
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
