SPECIFICATION Spec
CONSTANTS Cfgs <- QuickCfgs
 MaxFails = 1
 MaxTemps = 0
 MayCancel = TRUE
INVARIANTS NoViolation QueueAccounting SemaphoreSound
PROPERTY Returns
CHECK_DEADLOCK FALSE
