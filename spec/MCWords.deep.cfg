CONSTANT Deep = 1
SPECIFICATION Spec
INVARIANTS Numbering Blocks Complete NoGap
PROPERTY Increasing
CHECK_DEADLOCK FALSE
