SPECIFICATION TSpec
CONSTRAINT Note
CONSTRAINT Prune
POSTCONDITION Post
CHECK_DEADLOCK FALSE
