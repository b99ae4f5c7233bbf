INIT TraceInit
NEXT SelfNext
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
