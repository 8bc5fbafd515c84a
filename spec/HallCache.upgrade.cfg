CONSTANTS
 Threads = {1, 2}
 Widths = {1}
 Requests = 1
 Variant = "upgrade"
SPECIFICATION Spec
INVARIANTS OneSetPerWidth NeverNone LockOk
PROPERTIES Answered
CHECK_DEADLOCK FALSE
