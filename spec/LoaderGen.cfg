SPECIFICATION Spec
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
POSTCONDITION WriteAll
CHECK_DEADLOCK FALSE
