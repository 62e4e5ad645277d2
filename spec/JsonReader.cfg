SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PrefixOnly EndIsComplete FailsForAReason NoEmptySuccess
PROPERTIES Terminates
