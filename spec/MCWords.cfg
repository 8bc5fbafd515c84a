CONSTANT Deep = 0
SPECIFICATION Spec
INVARIANTS Numbering Blocks Complete NoGap
PROPERTY Increasing
CHECK_DEADLOCK FALSE
