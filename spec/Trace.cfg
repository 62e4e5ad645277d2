INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
POSTCONDITION AllChecked
