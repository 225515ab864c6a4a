SPECIFICATION Spec
INVARIANT PrefixLine
INVARIANT JustText
INVARIANT SameForms
INVARIANT Emit
POSTCONDITION Write
CHECK_DEADLOCK FALSE
