SPECIFICATION MSpec
INVARIANT Order Unique
CHECK_DEADLOCK TRUE
