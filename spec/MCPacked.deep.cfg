CONSTANTS WordBits = 10 Widest = 33 Variant = "good"
SPECIFICATION Spec
INVARIANTS InRange Stands Built Written Numbered Joined Ordered
CHECK_DEADLOCK FALSE
