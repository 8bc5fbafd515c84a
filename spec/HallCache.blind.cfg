CONSTANTS
 Threads = {1, 2}
 Widths = {1}
 Requests = 1
 Variant = "blind"
SPECIFICATION Spec
INVARIANTS OneSetPerWidth NeverNone LockOk
CHECK_DEADLOCK FALSE
