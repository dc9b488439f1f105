----------------------------- MODULE TraceJobs -----------------------------
EXTENDS Jobs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.e = "new" -> st' = [j \in 1..e.n |-> "idle"] /\ par' = [j \in 1..e.n |-> 0] /\ ask' = <<>>
              [] e.e = "enq" -> Enqueue(e.j, e.p)
              [] e.e = "refused" -> Refuse(e.j)
              [] e.e = "start" -> Start(e.j)
              [] e.e = "ret" -> Return(e.j)
              [] e.e = "done" -> Done(e.j)
              [] e.e = "joined" -> Joined(e.j)
              [] e.e = "ask" -> Ask(e.t, e.j)
              [] e.e = "answer" -> Answer(e.t, e.j, e.r)
              [] e.e = "workers" -> UNCHANGED vars
              [] e.e = "end" -> (\A j \in Jobs : st[j] = "idle") /\ UNCHANGED vars
              [] OTHER -> FALSE
TSpec == l = 1 /\ st = <<>> /\ par = <<>> /\ ask = <<>> /\ [][TNext]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
