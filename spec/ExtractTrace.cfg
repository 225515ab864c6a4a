SPECIFICATION Spec
CONSTANT GetJob <- TraceJob
INVARIANT MachineInv
INVARIANT Covered
INVARIANT Verdict
POSTCONDITION WriteVerdicts
CHECK_DEADLOCK FALSE
