SPECIFICATION Spec
INVARIANT FeatAccepted
ALIAS FeatShown
CHECK_DEADLOCK FALSE
