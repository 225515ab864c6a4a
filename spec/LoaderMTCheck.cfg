SPECIFICATION Spec
INVARIANT Fresh
INVARIANT Few
INVARIANT Released
INVARIANT Progress
CHECK_DEADLOCK FALSE
