SPECIFICATION Spec
CONSTANT GetJob <- TraceJob
INVARIANT MachineInv
INVARIANT VerdictXml
POSTCONDITION WriteVerdicts
CHECK_DEADLOCK FALSE
