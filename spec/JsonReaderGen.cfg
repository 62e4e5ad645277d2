INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS PrefixOnly EndIsComplete FailsForAReason NoEmptySuccess
