SPECIFICATION MSpec
INVARIANT OneLive TableLive NoticesOnce NoticesOrder RestOK
CHECK_DEADLOCK TRUE
