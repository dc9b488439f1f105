SPECIFICATION Spec
CONSTANTS
 Shape = 2
 Cap = 1
 Workers = 2
INVARIANTS OnceEach DoneMeansDone JoinMeansDone AllRun
PROPERTY Terminates
