SPECIFICATION Spec
CONSTANTS
 G = 2
 M = 3
 MaxLen = 0
 Emit = TRUE
INVARIANTS EmitAll
CHECK_DEADLOCK FALSE
