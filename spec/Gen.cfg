SPECIFICATION Spec
CONSTANT GetJob <- GenJob
CONSTANT Dims <- MyDims
CONSTANT Build <- MyBuild
INVARIANT MachineInv
INVARIANT Emit
POSTCONDITION WriteAll
CHECK_DEADLOCK FALSE
