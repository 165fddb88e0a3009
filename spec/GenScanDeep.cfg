SPECIFICATION SSpec
CONSTANTS
  Universe <- U6
  Emitting = TRUE
CHECK_DEADLOCK FALSE
