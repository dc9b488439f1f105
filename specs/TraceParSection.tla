--------------------------- MODULE TraceParSection ---------------------------
EXTENDS ParSection, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, lim
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.e = "new" -> Start(e.secs) /\ n' = (IF e.run THEN e.n ELSE -1) /\ lim' = e.lim
              [] e.e = "begin" -> Begin(e.s, e.c) /\ UNCHANGED <<n, lim>>
              [] e.e = "in" -> In(e.s, e.x) /\ (e.s = 1 => e.x = Len(given[1]) + 1) /\ UNCHANGED <<n, lim>>
              [] e.e = "work" -> Work(e.s, e.c, e.x) /\ UNCHANGED <<n, lim>>
              [] e.e = "end" -> End(e.s, e.c) /\ UNCHANGED <<n, lim>>
              [] e.e = "out" -> Out(e.s, e.y) /\ UNCHANGED <<n, lim>>
              [] e.e = "throw" -> Throw(e.v) /\ UNCHANGED <<n, lim>>
              [] e.e = "ran" -> Len(given[1]) = n /\ Ran /\ UNCHANGED <<n, lim>>
              [] e.e = "caught" -> Caught(e.v) /\ UNCHANGED <<n, lim>>
              [] e.e = "oom" -> lim /\ OutOfMemory /\ UNCHANGED <<n, lim>>
              [] e.e = "gone" -> e.threads = 0 /\ e.leak = 0 /\ (phase = "built" => n = -1) /\ Gone /\ UNCHANGED <<n, lim>>
              [] e.e = "over" -> phase = "gone" /\ UNCHANGED <<vars, n, lim>>
              [] OTHER -> FALSE
TSpec == l = 1 /\ n = 0 /\ lim = FALSE /\ secs = <<>> /\ given = <<>> /\ taken = <<>> /\ outs = <<>> /\ cs = <<>> /\ thrown = {} /\ phase = "gone" /\ [][TNext]_<<vars, l, n, lim>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
