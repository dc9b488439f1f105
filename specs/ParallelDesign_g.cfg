SPECIFICATION Spec
CONSTANTS N = 5 W = 2 Buf = 1 Order = FALSE OldStop = FALSE
CONSTANT Throw <- SinkT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
