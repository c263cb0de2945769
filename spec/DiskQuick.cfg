SPECIFICATION DSpec
INVARIANT Good
INVARIANT Index
SYMMETRY Sym
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Threads = {p1, p2}
 p2 = p2
 p1 = p1
 NKeys = 1
 Plan <- PlanS
 Cfg <- CfgDisk
 MaxT = 3
 Crashes = 0
 Faults = FALSE
 Sessions = 1
 Breaks = {}
