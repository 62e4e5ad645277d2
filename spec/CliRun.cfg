SPECIFICATION Spec
INVARIANTS BadInputsDontMatter InputsStay
PROPERTY OnlyTheOutput
CHECK_DEADLOCK FALSE
