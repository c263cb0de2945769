SPECIFICATION DSpec
INVARIANT Good
INVARIANT Index
SYMMETRY Sym
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Threads = {p1, p2}
 p2 = p2
 p1 = p1
 NKeys = 1
 Plan <- PlanC
 Cfg <- CfgCrash
 MaxT = 1
 Crashes = 1
 Faults = TRUE
 Sessions = 1
 Breaks = {}
