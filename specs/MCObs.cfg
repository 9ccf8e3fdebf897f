SPECIFICATION MSpec
INVARIANT EmissionsSound UpToDate Joined ViewAgrees RestFree
CHECK_DEADLOCK TRUE
