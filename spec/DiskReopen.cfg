SPECIFICATION DSpec
INVARIANT Good
INVARIANT Index
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Threads = {p1}
 p1 = p1
 NKeys = 1
 Plan <- PlanL
 Cfg <- CfgDisk
 MaxT = 4
 Crashes = 0
 Faults = FALSE
 Sessions = 2
 Breaks = {}
