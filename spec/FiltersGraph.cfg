INIT Init
NEXT Next
INVARIANTS ViewDecides CommonOk Forest Loaded
CHECK_DEADLOCK FALSE
