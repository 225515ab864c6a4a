SPECIFICATION Spec
INVARIANT Verdict
POSTCONDITION WriteVerdicts
CHECK_DEADLOCK FALSE
