SPECIFICATION Spec
CONSTANT MaxSteps = 2
INVARIANTS Guarded Open Emit
CHECK_DEADLOCK FALSE
