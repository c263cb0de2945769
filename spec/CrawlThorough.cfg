SPECIFICATION Spec
CONSTANTS Cfgs <- FullCfgs
 MaxFails = 1
 MaxTemps = 1
 MayCancel = TRUE
INVARIANTS NoViolation QueueAccounting SemaphoreSound
PROPERTY Returns
CHECK_DEADLOCK FALSE
