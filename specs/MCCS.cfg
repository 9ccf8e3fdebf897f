SPECIFICATION MSpec
INVARIANT Once Resolved UpToDate CacheRight StatusKnown Subscribed
CHECK_DEADLOCK TRUE
