SPECIFICATION MSpec
CONSTANTS
 MaxQueue = 2
 Callers = {1, 2}
 NameSet = {1, 2}
 MaxCalls = 3
 MaxFaults = 2
 MaxCrashes = 1
 MaxErr = 2
 Depth = 0
VIEW View
INVARIANTS Conforms NeverWedged OkMeansCreated FailedMeansNot CreatedMeansAccepted NamesUnique IdsUnique VersionsRecorded OnePerVersion NotBoth OrderKept
CHECK_DEADLOCK FALSE
