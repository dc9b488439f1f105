SPECIFICATION Spec
CONSTANTS N = 5 W = 2 Buf = 1 Order = TRUE OldStop = FALSE
CONSTANT Throw <- SrcT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
