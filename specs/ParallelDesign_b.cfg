SPECIFICATION Spec
CONSTANTS N = 5 W = 2 Buf = 2 Order = FALSE OldStop = FALSE
CONSTANT Throw <- NoneT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
