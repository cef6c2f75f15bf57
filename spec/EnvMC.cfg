SPECIFICATION Spec
INVARIANT Right
INVARIANT InBounds
PROPERTY Ends
CHECK_DEADLOCK FALSE
