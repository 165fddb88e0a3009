SPECIFICATION MSpec
CONSTANTS
 MaxQueue = 2
 Callers = {1, 2, 3}
 NameSet = {1, 2}
 MaxCalls = 4
 MaxFaults = 3
 MaxCrashes = 1
 MaxErr = 2
 Depth = 0
VIEW View
INVARIANTS Conforms NeverWedged OkMeansCreated FailedMeansNot CreatedMeansAccepted NamesUnique IdsUnique VersionsRecorded OnePerVersion NotBoth OrderKept
CHECK_DEADLOCK FALSE
