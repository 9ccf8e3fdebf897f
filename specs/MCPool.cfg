SPECIFICATION MSpec
INVARIANT Settled Ended
CHECK_DEADLOCK TRUE
