SPECIFICATION Spec
INVARIANT Reach
POSTCONDITION WriteVerdicts
CHECK_DEADLOCK FALSE
