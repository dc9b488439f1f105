--------------------------- MODULE TraceFileStream ---------------------------
(* Is a recorded execution of the real stream a behaviour of FileStream?  One event per public call, each with the
   size, offset and can-read answers after it. *)
EXTENDS FileStream, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>

Matches(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : v[i] = WILD \/ v[i] = w[i]

(* Exceptions: "eos" end_of_stream, "invalid" invalid_file, "io" io_exception, "stream" other stream_exception, "exc" other. *)
SameKind(spec, got) ==
    CASE spec = "" -> got = ""
      [] spec = "eos" -> got = "eos"
      [] spec = "stream" -> got \in {"stream", "invalid", "io", "eos"}
      [] spec = "invalid" -> got \in {"invalid", "stream"}
      [] spec = "io" -> got = "io"
      [] spec = "refused" -> got \in {"invalid", "io", "stream", "eos"}
      [] OTHER -> FALSE

Observed(e) ==
    mode' # "closed" =>
       /\ e.size = Len(items') /\ e.off = off'
       /\ e.cr = (off' < Len(items')) /\ e.cb = (off' > 0)

Sees(e) == SameKind(res'.x, e.x) /\ Matches(res'.r, e.r) /\ Observed(e)

Step(e) ==
    CASE e.e = "read"     -> Read /\ Sees(e)
      [] e.e = "peek"     -> Peek /\ Sees(e)
      [] e.e = "skip"     -> Skip /\ Sees(e)
      [] e.e = "readback" -> ReadBack /\ Sees(e)
      [] e.e = "skipback" -> SkipBack /\ Sees(e)
      [] e.e = "reada"    -> ReadArray(e.n) /\ Sees(e)
      [] e.e = "write"    -> Write(e.a[1]) /\ Sees(e)
      [] e.e = "writea"   -> WriteArray(e.a) /\ Sees(e)
      [] e.e = "seek"     -> Seek(e.n, e.w) /\ Sees(e)
      [] e.e = "getpos"   -> GetPos(e.s) /\ Sees(e)
      [] e.e = "setpos"   -> SetPos(e.s) /\ Sees(e)
      [] e.e = "setend"   -> SetPosEnd /\ Sees(e)
      [] e.e = "trunc"    -> Truncate(e.n) /\ Sees(e)
      [] e.e = "truncpos" -> TruncatePos(e.s) /\ Sees(e)
      [] e.e = "wud"      -> WriteUserData(e.a) /\ Sees(e)
      [] e.e = "rud"      -> ReadUserData /\ Sees(e)
      \* bytes: the file is byte for byte as it was when it was opened
      [] e.e = "close"    -> Close /\ Sees(e) /\ (mode = "ro" => e.same)
      [] e.e = "open"     -> Open(e.m, e.u, e.c) /\ Sees(e)
      [] e.e = "badopen"  -> BadOpen /\ Sees(e) /\ e.same
      [] e.e = "xread"    -> OtherProcessReads /\ Sees(e) /\ e.ud = ud
      [] OTHER -> FALSE

Init == /\ l = 1 /\ mode = "closed" /\ comp = FALSE /\ items = <<>> /\ off = 0 /\ pos = [s \in SLOTS |-> -1]
        /\ ud = <<>> /\ udmax = 0 /\ named = FALSE /\ exists = FALSE /\ res = Ok(<<>>)

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.e = "new" THEN Start(e.comp, e.named, e.udmax) ELSE Step(e)

Spec == Init /\ [][Next]_tvars
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
