SPECIFICATION Spec
CONSTANTS
 G = 2
 M = 3
 MaxLen = 4
 Emit = FALSE
INVARIANTS RoundTrip Order SelfDelimiting Canonical Successor PrefixSuccessor NoSuccessor
CHECK_DEADLOCK FALSE
