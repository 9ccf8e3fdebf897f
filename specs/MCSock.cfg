SPECIFICATION MSpec
INVARIANT Sane Once
PROPERTY Delivered
CHECK_DEADLOCK TRUE
