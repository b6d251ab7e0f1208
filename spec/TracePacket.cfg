SPECIFICATION Spec
INVARIANT Accepted
ALIAS Shown
CHECK_DEADLOCK FALSE
