--------------------------- MODULE TraceResources ---------------------------
EXTENDS Resources, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Obs(e) == /\ e.used = Total(live') /\ e.limit = limit' /\ e.avail = Available(Total(live'), limit')
          /\ e.buckets = <<InBucket(live', 0), InBucket(live', 1)>>
          /\ e.fused = Cardinality(files') /\ e.fds = Cardinality(files') /\ e.flimit = flimit' /\ e.favail = Available(Cardinality(files'), flimit')
Step(e) ==
    CASE e.e = "req" -> (CASE e.x = "" -> Request(e.h, e.n, e.b) [] e.x = "limit" -> Refused(e.n) [] e.x = "own" -> Failed(e.n) [] OTHER -> FALSE)
      [] e.e = "resize" -> (CASE e.x = "" -> Resize(e.h, e.n, e.b) [] e.x = "limit" -> ResizeRefused(e.h, e.n, e.b) [] e.x = "own" -> ResizeFailed(e.h, e.n, e.b) [] OTHER -> FALSE)
      [] e.e = "free" -> Free(e.h)
      [] e.e = "limit" -> SetLimit(e.n)
      [] e.e = "mode" -> SetMode(e.m)
      [] e.e = "open" -> (CASE e.x = "" -> OpenFile(e.h) [] e.x = "limit" -> OpenRefused [] e.x = "own" -> OpenFailed [] OTHER -> FALSE)
      [] e.e = "close" -> CloseFile(e.h)
      [] e.e = "limitf" -> SetFLimit(e.n)
      [] e.e = "modef" -> SetFMode(e.m)
      [] e.e = "same" -> UNCHANGED vars
      [] OTHER -> FALSE
\* threads working at once: what each was granted, never more than the limit together, all of it accounted
Threads(e) == /\ e.used = e.kept /\ e.peak <= e.limit /\ (e.total <= e.limit => e.refused = 0) /\ e.after = 0 /\ UNCHANGED vars
\* a component working under an enforced limit: either it worked or it threw, and in the end all is given back
Component(e) == e.x \in {"", "limit"} /\ e.before = e.after /\ e.fbefore = e.fafter /\ e.fds0 = e.fds1 /\ e.kept = 1 /\ UNCHANGED vars
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.e = "new" -> live' = [x \in {} |-> 0] /\ files' = {} /\ limit' = 0 /\ mode' = "ignore" /\ flimit' = e.fl /\ fmode' = "warn"
              [] e.e = "threads" -> Threads(e)
              [] e.e = "component" -> Component(e)
              [] e.e = "user" -> e.r = e.w /\ UNCHANGED vars
              [] OTHER -> Step(e) /\ Obs(e)
TSpec == l = 1 /\ live = [x \in {} |-> 0] /\ files = {} /\ limit = 0 /\ mode = "ignore" /\ flimit = 0 /\ fmode = "warn" /\ [][TNext]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
