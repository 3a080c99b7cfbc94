INIT Init
NEXT Next
VIEW view
INVARIANT Sound
CHECK_DEADLOCK FALSE
