SPECIFICATION Spec
CONSTANTS
 Shape = 3
 Cap = 2
 Workers = 1
INVARIANTS OnceEach DoneMeansDone JoinMeansDone AllRun
PROPERTY Terminates
