SPECIFICATION MFair
CONSTANTS
 Streams = {s1, s2}
 MaxFrames = 2
 Rule = "code"
INVARIANTS Allowed Careful LetsGo
PROPERTIES Ends4 Answered Stops
CHECK_DEADLOCK FALSE
