--------------------------- MODULE TraceTempFiles ---------------------------
EXTENDS TempFiles, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, base
Range(s) == {s[i] : i \in DOMAIN s}
Obs(e) == /\ Range(e.disk) = disk' /\ e.unknown = 0 /\ e.usage = base' + Usage(h', obj', kept') /\ Unique'
Block == 16384 + 4096
\* what is recorded for a file is its size, give or take the part of a block and the header
Rec(e) == e.usage - base - (Usage(h, obj, kept) - obj[h[e.s]].rec)
UseStep(e) == IF e.refused THEN UNCHANGED vars \/ (\E r \in {Rec(e)} : Use(e.s, e.p, r))
              ELSE /\ e.size >= 0 /\ Rec(e) >= e.size - Block /\ Rec(e) <= e.size + Block /\ Use(e.s, e.p, Rec(e))
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.e = "new" THEN h' = [s \in Slots |-> 0] /\ obj' = <<>> /\ disk' = {} /\ gen' = {} /\ kept' = 0 /\ base' = e.usage
            ELSE /\ base' = base
                 /\ CASE e.e = "make" -> Make(e.s)
                      [] e.e = "name" -> Name(e.s, e.p, e.persist)
                      [] e.e = "copy" -> Copy(e.s, e.q)
                      [] e.e = "move" -> Move(e.s, e.q)
                      [] e.e = "drop" -> Drop(e.s)
                      [] e.e = "dropall" -> DropAll
                      [] e.e = "persist" -> Persist(e.s, e.persist) /\ e.is = e.persist
                      [] e.e = "path" -> (obj[h[e.s]].path = 0 => e.dir = e.wdir /\ e.named) /\ Path(e.s, e.p, e.fresh)
                      [] e.e = "use" -> UseStep(e)
                      [] e.e = "lost" -> Lost(e.p)
                      [] e.e = "store" -> Store(e.p)
                      [] e.e = "scratch" -> e.during = 1 /\ UNCHANGED vars
                      [] e.e = "dir" -> e.ok /\ UNCHANGED vars
                      [] e.e = "same" -> UNCHANGED vars
                      [] e.e = "finish" -> Finish /\ e.dirs = 0
                      [] OTHER -> FALSE
                 /\ Obs(e)
TSpec == l = 1 /\ base = 0 /\ h = [s \in Slots |-> 0] /\ obj = <<>> /\ disk = {} /\ gen = {} /\ kept = 0 /\ [][TNext]_<<vars, l, base>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
