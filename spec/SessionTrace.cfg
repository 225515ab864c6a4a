SPECIFICATION Spec
CONSTANT Want <- TraceWant
INVARIANT TypeOK
INVARIANT Faithful
INVARIANT Verdict
POSTCONDITION WriteVerdicts
CHECK_DEADLOCK FALSE
