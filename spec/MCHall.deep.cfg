CONSTANT Top = 22
SPECIFICATION Spec
INVARIANTS Witt Increasing Starts Found
PROPERTY GrowKeeps
CHECK_DEADLOCK FALSE
