SPECIFICATION Spec
INVARIANTS Stops Goes Result Touched Emitted
CHECK_DEADLOCK FALSE
