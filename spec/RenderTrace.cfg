SPECIFICATION Spec
CONSTANT GetJob <- TraceJob
INVARIANT MachineInv
INVARIANT Verdict
POSTCONDITION WriteVerdicts
CHECK_DEADLOCK FALSE
