SPECIFICATION MSpec
INVARIANT NotEarly Truth
CHECK_DEADLOCK TRUE
