SPECIFICATION Spec
CONSTANTS N = 3
 KINDS = {"no", "push", "pull", "dep", "ms"}
 FORWARDS = FALSE
INVARIANTS SafeCalls OnePhase RunOnce DependenciesFirst SharedOrPutAside NotInVain Finished NotStuck
CHECK_DEADLOCK FALSE
