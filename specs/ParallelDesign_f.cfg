SPECIFICATION Spec
CONSTANTS N = 5 W = 2 Buf = 2 Order = TRUE OldStop = FALSE
CONSTANT Throw <- WorkT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
