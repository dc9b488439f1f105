SPECIFICATION Spec
CONSTANTS N = 6 W = 3 Buf = 2 Order = TRUE OldStop = FALSE
CONSTANT Throw <- WorkT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
