INIT TraceInit
NEXT TNext
CONSTRAINT Note
POSTCONDITION Post
CHECK_DEADLOCK FALSE
