SPECIFICATION Spec
CONSTANTS
 Shape = 2
 Cap = 2
 Workers = 0
INVARIANTS OnceEach DoneMeansDone JoinMeansDone AllRun
PROPERTY Terminates
