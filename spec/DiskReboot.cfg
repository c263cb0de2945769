SPECIFICATION DSpec
INVARIANT Good
INVARIANT Index
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Threads = {p1}
 p1 = p1
 NKeys = 1
 Plan <- PlanC
 Cfg <- CfgCrash
 MaxT = 1
 Crashes = 2
 Faults = TRUE
 Sessions = 2
 Breaks = {}
