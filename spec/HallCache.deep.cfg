CONSTANTS
 Threads = {1, 2, 3}
 Widths = {1, 2}
 Requests = 2
 Variant = "good"
SPECIFICATION Spec
INVARIANTS OneSetPerWidth NeverNone LockOk
PROPERTIES Stable Answered AllServed
CHECK_DEADLOCK FALSE
