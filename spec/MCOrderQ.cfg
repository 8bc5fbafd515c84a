CONSTANT Cases <- QuickCases
SPECIFICATION Spec
INVARIANTS Monoid Total ByIndex Split Compatible Packing Reads
CHECK_DEADLOCK FALSE
