---------------------------- MODULE TraceSerStream ----------------------------
EXTENDS SerStream, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
SameKind(spec, got) ==
    CASE spec = "" -> got = ""
      [] spec = "eos" -> got = "eos"
      [] spec = "refused" -> got \in {"invalid", "io", "stream", "eos"}
      [] OTHER -> FALSE
(* After every call: number of open files; for the readers can_read, offset and size. *)
Observed(e) ==
    /\ e.open = OpenCount'
    /\ \A d \in DIRS : LET i == d + 1 IN
         rd'[d].f # -1 => /\ e.cr[i] = (IF CanRead(d)' THEN 1 ELSE 0)
                          /\ e.off[i] = Offset(d)' /\ e.size[i] = Total(rd[d].f)'
Sees(e) == SameKind(res'.x, e.x) /\ res'.r = e.r /\ Observed(e)
Step(e) ==
    CASE e.e = "openw" -> OpenWriter(e.d, e.f) /\ Sees(e)
      [] e.e = "ser" -> Ser(e.d, [id |-> e.id, b |-> e.b]) /\ Sees(e)
      [] e.e = "closew" -> CloseWriter(e.d) /\ Sees(e)
      [] e.e = "openr" -> OpenReader(e.d, e.f) /\ Sees(e)
      [] e.e = "unser" -> Unser(e.d) /\ Sees(e)
      [] e.e = "closer" -> CloseReader(e.d) /\ Sees(e)
      [] e.e = "damage" -> Damage(e.f) /\ Sees(e)
      [] OTHER -> FALSE
Init == l = 1 /\ file = [f \in FILES |-> None] /\ wr = [d \in DIRS |-> -1] /\ rd = [d \in DIRS |-> Idle] /\ res = Ok(<<>>)
Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN IF e.e = "new" THEN Start ELSE Step(e)
Spec == Init /\ [][Next]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
