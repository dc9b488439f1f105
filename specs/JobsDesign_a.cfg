SPECIFICATION Spec
CONSTANTS
 Shape = 1
 Cap = 1
 Workers = 2
INVARIANTS OnceEach DoneMeansDone JoinMeansDone AllRun
PROPERTY Terminates
