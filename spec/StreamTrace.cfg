INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTRAINT Watch
POSTCONDITION AllChecked
