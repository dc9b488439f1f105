---------------------------- MODULE TraceBudget ----------------------------
(* Components that are given memory and open files, observed while limits are enforced: what they held at most,
   how much they worked through, and that all was given back. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, base, n, phase
vars == <<base, n, phase>>
Order == [form |-> 0, merge |-> 1, report |-> 2, queue |-> 0, sort |-> 0, pipe |-> 0]
\* the writer behind the streams needs room for the block it compresses
Slack(bs) == bs + bs \div 5 + 8192
Phase(e) == /\ e.p \in DOMAIN Order /\ phase = Order[e.p] /\ phase' = phase + 1
            /\ e.slack <= Slack(base) /\ e.mem <= e.m + e.slack /\ e.files <= e.f
            /\ e.n = n /\ UNCHANGED <<base, n>>
Says(e) == e.own + e.used <= e.claim + (IF e.c \in {"estack", "equeue", "stream"} THEN Slack(base) ELSE 0) /\ UNCHANGED vars
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.e = "new" -> base' = e.bs /\ n' = 0 /\ phase' = 0
              [] e.e = "sorter" -> n' = e.n /\ UNCHANGED <<base, phase>>
              [] e.e = "phase" -> Phase(e)
              [] e.e = "says" -> Says(e)
              [] e.e = "gone" -> e.mem = 0 /\ e.files = 0 /\ UNCHANGED vars
              [] OTHER -> FALSE
TSpec == l = 1 /\ base = 0 /\ n = 0 /\ phase = 0 /\ [][TNext]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
