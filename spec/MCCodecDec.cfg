SPECIFICATION Spec
CONSTANTS
 G = 1
 M = 2
 MaxLen = 8
 Emit = FALSE
INVARIANTS RoundTrip Canonical
CHECK_DEADLOCK FALSE
