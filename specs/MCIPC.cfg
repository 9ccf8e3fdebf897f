SPECIFICATION MSpec
INVARIANT Own Once Resolved Known Fresh
CHECK_DEADLOCK TRUE
