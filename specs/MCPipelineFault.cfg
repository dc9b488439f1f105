SPECIFICATION FaultSpec
CONSTANTS N = 3
 KINDS = {"no", "push", "pull", "dep", "ms"}
 FORWARDS = FALSE
INVARIANTS SafeCalls OnePhase RunOnce NotLost
PROPERTY QuietAfterThrow
CHECK_DEADLOCK FALSE
