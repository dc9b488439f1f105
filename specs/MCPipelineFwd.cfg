SPECIFICATION Spec
CONSTANTS N = 3
 KINDS = {"no", "push", "pull", "dep"}
 FORWARDS = TRUE
INVARIANTS SafeCalls DependenciesFirst ForwardedLater OwnFirst
CHECK_DEADLOCK FALSE
