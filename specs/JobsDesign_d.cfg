SPECIFICATION Spec
CONSTANTS
 Shape = 4
 Cap = 1
 Workers = 3
INVARIANTS OnceEach DoneMeansDone JoinMeansDone AllRun
PROPERTY Terminates
