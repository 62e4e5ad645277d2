SPECIFICATION Spec
INVARIANTS PrefixTaken OkIsWhole ErrorIsTheWriters
PROPERTY Ends
CHECK_DEADLOCK FALSE
