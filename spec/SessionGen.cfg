SPECIFICATION Spec
CONSTANT Want <- TwoWant
INVARIANT TypeOK
INVARIANT Faithful
INVARIANT Emit
POSTCONDITION WriteAll
CHECK_DEADLOCK FALSE
