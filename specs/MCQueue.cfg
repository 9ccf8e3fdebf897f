SPECIFICATION MSpec
INVARIANT Conserved FifoOrder RestOK
PROPERTY NothingFromClosed
CHECK_DEADLOCK TRUE
