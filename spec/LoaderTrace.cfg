SPECIFICATION Spec
INVARIANT Inv
INVARIANT Verdict
POSTCONDITION WriteVerdicts
CHECK_DEADLOCK FALSE
