SPECIFICATION Spec
CONSTANTS N = 3 W = 2 Buf = 1 Order = TRUE OldStop = TRUE
CONSTANT Throw <- BeginT
INVARIANT NoDuplicates NothingInvented KeepsOrder CompleteAtEnd FailsWhenThrown DestroysDone
PROPERTY Terminates
