SPECIFICATION Spec
CONSTANTS N = 7 W = 3 Buf = 2 Order = TRUE OldStop = FALSE
CONSTANT Throw <- NoneT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
