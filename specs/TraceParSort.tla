---------------------------- MODULE TraceParSort ----------------------------
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Less(x, y) == x < y
\* items are key * 1000 + identity; the comparator sees the key only
SortedBy(s, rev) == \A i \in 1..(Len(s) - 1) : IF rev THEN s[i] \div 1000 >= s[i + 1] \div 1000 ELSE s[i] \div 1000 <= s[i + 1] \div 1000
Sort(e) == /\ Len(e.in) = Len(e.r) /\ SortSeq(e.in, Less) = SortSeq(e.r, Less) /\ SortedBy(e.r, e.rev)
           /\ e.after = e.r /\ e.late = 0                  \* nobody touches it after the call returned
           /\ e.cur <= e.range /\ e.grew /\ e.dones = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN CASE e.e \in {"new", "end"} -> TRUE [] e.e = "sort" -> Sort(e) [] OTHER -> FALSE
TSpec == l = 1 /\ [][TNext]_l
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
