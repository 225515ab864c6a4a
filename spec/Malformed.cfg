SPECIFICATION Spec
INVARIANT Counts
INVARIANT Within
INVARIANT Emit
POSTCONDITION WriteAll
CHECK_DEADLOCK FALSE
