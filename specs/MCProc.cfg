INIT MInit
NEXT MNext
INVARIANTS FifoOnce NothingLost OnRunner StopEnds ReadyMeansEnded NoStranded TypeOK SlotThread WaitedFor SignalsFree
PROPERTY NoTakeClosed
CHECK_DEADLOCK TRUE
