CONSTANTS WordBits = 8 Widest = 15 Variant = "unguarded"
SPECIFICATION Spec
INVARIANTS InRange Stands Built Written Numbered Joined Ordered
CHECK_DEADLOCK FALSE
