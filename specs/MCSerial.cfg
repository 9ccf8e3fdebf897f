SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK Written ReadBack InPlace Truncated Announced Injective Emit
