----------------------------- MODULE TraceExtPq -----------------------------
EXTENDS ExtPq, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, total   \* total: how many items were ever pushed; a queue with fan-out 3 is never full before 200
Sees(e) == res' = e.x /\ e.size = Cardinality(items') /\ e.empty = (items' = {})
Step(e) ==
    CASE e.e = "push" -> (IF e.x = "full" THEN total > 200 /\ PushFull(e.r, e.n) ELSE e.n = Len(e.r) /\ Push(e.r)) /\ Sees(e)
      [] e.e = "pop" -> Pop(e.n, e.r) /\ Sees(e)
      [] e.e = "top" -> Top(e.r) /\ Sees(e)
      [] e.e = "popeq" -> PopEquals(e.r) /\ Sees(e)
      [] OTHER -> FALSE
Init == l = 1 /\ items = {} /\ res = "" /\ total = 0
Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN IF e.e = "new" THEN Start /\ total' = 0 ELSE Step(e) /\ total' = (IF e.e = "push" THEN total + Len(e.r) ELSE total)
Spec == Init /\ [][Next]_<<vars, l, total>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
