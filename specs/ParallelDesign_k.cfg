SPECIFICATION Spec
CONSTANTS N = 9 W = 4 Buf = 1 Order = TRUE OldStop = FALSE
CONSTANT Throw <- NoneT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
