SPECIFICATION MSpec
INVARIANT EmissionsSound ViewAgrees RestFree
PROPERTY DisconnectWaits
CHECK_DEADLOCK TRUE
