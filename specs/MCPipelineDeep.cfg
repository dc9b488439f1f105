SPECIFICATION Spec
CONSTANTS N = 4
 KINDS = {"no", "pull", "dep", "ms"}
 FORWARDS = FALSE
INVARIANTS SafeCalls OnePhase RunOnce DependenciesFirst SharedOrPutAside NotInVain Finished NotStuck
CHECK_DEADLOCK FALSE
