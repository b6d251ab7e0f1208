SPECIFICATION Spec
INVARIANT BuildAccepted
ALIAS BuildShown
CHECK_DEADLOCK FALSE
