---------------------------- MODULE TraceExtSort ----------------------------
EXTENDS ExtSort, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
NonDecreasing(s) == \A i \in 1..(Len(s) - 1) : Key(s[i]) <= Key(s[i + 1])
Step(e) ==
    CASE e.e = "push" -> Push(e.r) /\ e.count = Cardinality(items')
      [] e.e = "end" -> End
      [] e.e = "calc" -> Calc /\ e.more = (items # {})
      [] e.e = "evac" -> Evacuate
      \* n pulls were tried and Len(r) of them made, each after can_pull had said yes
      [] e.e = "pull" -> Pull(e.r) /\ e.more = (items' # {}) /\ (Len(e.r) < e.n => items' = {})
      \* a whole stream sorted
      [] e.e = "sort" -> /\ Len(e.r) = Len(e.in) /\ Range(e.r) = Range(e.in) /\ NonDecreasing(e.r) /\ e.off = 0
                         /\ (e.two => e.keep = e.in) /\ UNCHANGED vars
      \* what cannot be done within the limits is refused; the driver says whether it can
      [] e.e = "refused" -> e.may /\ UNCHANGED vars
      \* when the sorter is gone so are its files
      [] e.e = "gone" -> e.files = 0 /\ e.open = 0 /\ e.usage = 0 /\ UNCHANGED vars
      [] OTHER -> FALSE
Init == l = 1 /\ phase = "form" /\ items = {}
TNext == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN IF e.e = "new" THEN Start ELSE Step(e)
TSpec == Init /\ [][TNext]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
