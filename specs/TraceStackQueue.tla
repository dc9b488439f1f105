--------------------------- MODULE TraceStackQueue ---------------------------
EXTENDS StackQueue, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Sees(e) == res'.x = e.x /\ res'.r = e.r /\ (isopen' => e.size = Size' /\ e.empty = (Size' = 0))
           /\ e.file = keep'   \* meaningful while closed; while open the driver logs what it asked for
Vals(a, n) == [i \in 1..n |-> a + i - 1]
Step(e) ==
    CASE e.e = "push" -> Push(Vals(e.v, e.n)) /\ Sees(e)
      [] e.e = "pop" -> Pop(e.n) /\ Sees(e)
      [] e.e = "peek" -> Peek /\ Sees(e)
      [] e.e = "persist" -> Persist(e.p) /\ Sees(e)
      [] e.e = "close" -> Close /\ Sees(e)
      [] e.e = "reopen" -> Reopen /\ Sees(e)
      [] OTHER -> FALSE
Init == l = 1 /\ kind = "stack" /\ items = <<>> /\ isopen = TRUE /\ keep = FALSE /\ res = Ok(<<>>)
Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN IF e.e = "new" THEN Start(e.kind, e.keep) ELSE Step(e)
Spec == Init /\ [][Next]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
