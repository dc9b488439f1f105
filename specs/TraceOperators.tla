-------------------------- MODULE TraceOperators --------------------------
\* Compositions of the pipelining operators, as drivers/op.cpp records them: every sink received what the expression of the stages before it evaluates
\* to, an exception thrown by user code came out unchanged, and nothing was left behind.
EXTENDS Operators, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, boom
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.e = "new" -> st \in {"none", "left"} /\ st' = "left" /\ boom' = -1
              [] e.e = "build" -> st = "left" /\ st' = "build" /\ boom' = -1
              [] e.e = "throw" -> st = "build" /\ boom = -1 /\ boom' = e.v /\ st' = "thrown"
              [] e.e = "caught" -> st = "thrown" /\ e.v = boom /\ st' = "over" /\ UNCHANGED boom
              [] e.e = "done" -> st = "build" /\ st' = "done" /\ UNCHANGED boom
              [] e.e = "sink" -> st = "done" /\ e.got = Eval(e.ex) /\ UNCHANGED <<st, boom>>
              [] e.e = "left" -> st \in {"done", "over"} /\ e.mem = 0 /\ e.files = 0 /\ e.tmp = 0 /\ e.list = 0 /\ st' = "left" /\ UNCHANGED boom
              [] OTHER -> FALSE
TSpec == l = 1 /\ st = "none" /\ boom = -1 /\ [][TNext]_<<l, st, boom>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
