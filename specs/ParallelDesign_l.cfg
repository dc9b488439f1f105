SPECIFICATION Spec
CONSTANTS N = 8 W = 3 Buf = 1 Order = FALSE OldStop = FALSE
CONSTANT Throw <- SinkT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
