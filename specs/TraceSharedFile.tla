--------------------------- MODULE TraceSharedFile ---------------------------
EXTENDS SharedFile, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Matches(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : v[i] = WILD \/ v[i] = w[i]
SameKind(spec, got) ==
    CASE spec = "" -> got = ""
      [] spec = "eos" -> got = "eos"
      [] spec = "io" -> got = "io"
      [] spec \in {"out", "refused"} -> got \in {"invalid", "io", "stream", "eos"}
      [] OTHER -> FALSE
Observed(e) ==
    mode' # "closed" =>
       /\ e.size = Len(items')
       /\ \A s \in STREAMS : /\ e.off[s + 1] = cur'[s]
                             /\ cur'[s] >= 0 => /\ e.cr[s + 1] = (IF cur'[s] < Len(items') THEN 1 ELSE 0)
                                                /\ e.cb[s + 1] = (IF cur'[s] > 0 THEN 1 ELSE 0)
Sees(e) == SameKind(res'.x, e.x) /\ Matches(res'.r, e.r) /\ Observed(e)
Step(e) ==
    CASE e.e = "attach" -> Attach(e.s, e.n) /\ Sees(e)
      [] e.e = "detach" -> Detach(e.s) /\ Sees(e)
      [] e.e = "read" -> Read(e.s) /\ Sees(e)
      [] e.e = "peek" -> Peek(e.s) /\ Sees(e)
      [] e.e = "skip" -> Skip(e.s) /\ Sees(e)
      [] e.e = "readback" -> ReadBack(e.s) /\ Sees(e)
      [] e.e = "skipback" -> SkipBack(e.s) /\ Sees(e)
      [] e.e = "reada" -> ReadArray(e.s, e.n) /\ Sees(e)
      [] e.e \in {"write", "writea"} -> WriteArray(e.s, e.a) /\ Sees(e)
      [] e.e = "seek" -> SeekFrom(e.s, e.n, e.w) /\ Sees(e)
      [] e.e = "trunc" -> Truncate(e.n) /\ Sees(e)
      [] e.e = "wud" -> WriteUserData(e.a) /\ Sees(e)
      [] e.e = "rud" -> ReadUserData /\ Sees(e)
      [] e.e = "close" -> Close /\ Sees(e) /\ (mode = "ro" => e.same)
      [] e.e = "open" -> Open(e.m, e.u) /\ Sees(e)
      [] e.e = "badopen" -> BadOpen /\ Sees(e) /\ e.same
      \* two stream objects of the same kind swap their contents: nothing changes for the one that is followed
      [] e.e = "swap" -> res' = Ok(<<>>) /\ UNCHANGED <<items, cur, fv>> /\ Sees(e)
      [] OTHER -> FALSE
Init == /\ l = 1 /\ mode = "closed" /\ plain = FALSE /\ items = <<>> /\ cur = NoCursor /\ ud = <<>> /\ udmax = 0
        /\ named = FALSE /\ exists = FALSE /\ res = Ok(<<>>)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.e = "new" THEN Start(e.plain, e.named, e.udmax) ELSE Step(e)
Spec == Init /\ [][Next]_tvars
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
