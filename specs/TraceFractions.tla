--------------------------- MODULE TraceFractions ---------------------------
EXTENDS Fractions, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* a list of [name, f, n] as a database
Map(s) == [x \in {s[i][1] : i \in 1..Len(s)} |-> LET i == CHOOSE j \in 1..Len(s) : s[j][1] = x IN [f |-> s[i][2], n |-> s[i][3]]]
Proper(s) == \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
File(e) == Proper(e.r) /\ Map(e.r) = file'[e.p]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.e = "new" -> db' = <<>> /\ file' = [p \in {1, 2} |-> <<>>] /\ there' = {} /\ fresh' = FALSE
              [] e.e = "update" -> Update(e.x, e.f, e.n)
              [] e.e = "load" -> Load(e.p)
              [] e.e = "save" -> Save(e.p, e.force) /\ File(e) /\ e.there = (e.p \in there')
              [] e.e = "dump" -> Proper(e.r) /\ Map(e.r) = db /\ UNCHANGED vars
              [] e.e = "restart" -> Restart
              [] e.e = "run" -> Proper(e.r) /\ Run(e.xs, e.ns, Map(e.r))
              [] e.e = "junk" -> there' = there \cup {e.p} /\ UNCHANGED <<db, file, fresh>>   \* lines that are no records
              [] OTHER -> FALSE
TSpec == l = 1 /\ Init /\ [][TNext]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
