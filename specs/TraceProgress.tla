---------------------------- MODULE TraceProgress ----------------------------
EXTENDS Progress, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Obs(e) == /\ e.c = [i \in 1..Len(tree') |-> tree'[i].cur] /\ e.pct = shown'
          /\ \A i \in 1..Len(tree') : tree'[i].given <= tree'[i].outer
          /\ (Len(tree) > 0 => shown' >= shown /\ tree'[1].cur >= tree[1].cur)
          /\ shown' <= 100
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.e = "new" -> Root(e.range)
              [] e.e = "init" -> Init(e.i, e.range, e.outer) /\ Fair(e.i) /\ Obs(e)
              [] e.e = "setup" -> Setup(e.p, e.outer) /\ Obs(e)
              [] e.e = "move" -> Move(e.i) /\ Obs(e)
              [] e.e = "split" -> Split(e.i, e.w, 23000) /\ Obs(e)
              [] e.e = "step" -> Step(e.i, e.k) /\ Obs(e)
              [] e.e = "done" -> Done(e.i) /\ Obs(e)
              [] e.e = "end" -> tree[1].cur = tree[1].range /\ shown = 100 /\ UNCHANGED vars
              [] OTHER -> FALSE
TSpec == l = 1 /\ tree = <<>> /\ shown = -1 /\ [][TNext]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
