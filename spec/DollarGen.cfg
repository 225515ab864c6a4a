SPECIFICATION Spec
INVARIANT Protects
INVARIANT Inert
INVARIANT Agree
INVARIANT Compositional
INVARIANT Escaped
INVARIANT Emit
POSTCONDITION Write
CHECK_DEADLOCK FALSE
