--------------------------- MODULE TraceBlockStore ---------------------------
EXTENDS BlockStore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.x # "" -> FALSE
      [] e.e = "alloc" -> e.off = 0 /\ Alloc(e.b)
      [] e.e = "free" -> Free(e.b)
      [] e.e = "write" -> Write(e.b, e.c)
      [] e.e = "read" -> Read(e.b, e.r)
      [] e.e = "close" -> Close
      [] e.e = "open" -> Open(e.m)
      [] OTHER -> FALSE
Init == l = 1 /\ live = [x \in {} |-> Blank] /\ free = {} /\ mode = "w" /\ res = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN IF e.e = "new" THEN Start ELSE Step(e)
Spec == Init /\ [][Next]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
