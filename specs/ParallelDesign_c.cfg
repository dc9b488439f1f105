SPECIFICATION Spec
CONSTANTS N = 4 W = 3 Buf = 1 Order = TRUE OldStop = FALSE
CONSTANT Throw <- NoneT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
