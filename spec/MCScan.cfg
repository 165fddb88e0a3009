SPECIFICATION SSpec
CONSTANTS
  Universe <- U6
  Emitting = FALSE
INVARIANT ScansOK
CHECK_DEADLOCK FALSE
