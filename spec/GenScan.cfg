SPECIFICATION SSpec
CONSTANTS
  Universe <- U5
  Emitting = TRUE
CHECK_DEADLOCK FALSE
