CONSTANT Cases <- QuickCases
SPECIFICATION Spec
INVARIANTS LogExp ExpLog Inverse Fused
CHECK_DEADLOCK FALSE
