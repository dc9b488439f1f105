----------------------------- MODULE TraceFaults -----------------------------
EXTENDS Faults, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fr, fw, err, dropped
Sees(e) == /\ res'.x = e.x /\ res'.r = e.r /\ (mode' # "closed") = e.open
           /\ ((kind \notin {"ser", "rser"} /\ mode' # "closed") => (e.size = Len(items') /\ e.off = off'))
Word == IF err = 28 THEN "full" ELSE "io"
Exact(e, dr, dw) ==
    CASE e.e = "open" -> Open(e.m, dr, dw)
      [] e.e = "close" -> Close(dr, dw)
      [] e.e = "write" -> Write(e.n, dr, dw)
      [] e.e = "read" -> Read(dr, dw)
      [] e.e = "readback" -> ReadBack(dr, dw)
      [] e.e = "seek" -> Seek(e.n, dr, dw)
      [] e.e = "trunc" -> Trunc(e.n, dr, dw)
      [] OTHER -> FALSE
After(e) == CASE e.e = "trunc" -> SubSeq(items, 1, e.n)
              [] e.e = "write" /\ Cursor -> items
              [] OTHER -> items
Step(e) == LET dr == e.fr - fr dw == e.fw - fw IN
    /\ fr' = e.fr /\ fw' = e.fw /\ UNCHANGED <<err, dropped>>
    /\ \/ (~damaged \/ (e.e = "open" /\ e.m = "wo")) /\ Exact(e, dr, dw) /\ Sees(e)
       \/ e.x = Word /\ e.e # "open" /\ e.size >= 0 /\ Fails(e.x, e.open, e.off, After(e), dr, dw) /\ (e.open /\ ~damaged' /\ kind \notin {"ser", "rser"} => e.size = Len(items'))
       \/ e.e = "open" /\ e.x # "" /\ (e.x = Word \/ (damaged /\ e.m # "wo")) /\ ~e.open /\ OpenFails(e.x, e.m, dr, dw)
       \/ e.e # "open" /\ Guess(e.x, e.r, e.open, e.off)
Init == l = 1 /\ fr = 0 /\ fw = 0 /\ err = 0 /\ dropped = FALSE
        /\ kind = "fs0" /\ mode = "closed" /\ items = <<>> /\ off = 0 /\ damaged = FALSE /\ pr = 0 /\ pw = 0 /\ res = Ok(<<>>)
(* A destructor cannot report a lost write: it ends the process. *)
Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN
    CASE e.e = "new" -> Start(e.kind) /\ fr' = 0 /\ fw' = 0 /\ err' = e.err /\ dropped' = FALSE
      [] e.e = "calm" -> UNCHANGED <<kind, mode, items, off, damaged, res, err, dropped>> /\ fr' = e.fr /\ fw' = e.fw /\ pr' = pr + e.fr - fr /\ pw' = pw + e.fw - fw
      [] e.e = "drop" -> UNCHANGED <<kind, mode, items, off, damaged, res, err>> /\ fr' = e.fr /\ fw' = e.fw /\ pr' = pr + e.fr - fr /\ pw' = pw + e.fw - fw /\ dropped' = TRUE
      [] e.e = "dropped" -> Dropped /\ fr' = e.fr /\ fw' = e.fw /\ UNCHANGED err /\ dropped' = FALSE
      [] e.e = "crash" -> dropped /\ (pw > 0 \/ damaged) /\ UNCHANGED <<vars, fr, fw, err, dropped>>
      [] e.e = "end" -> e.dr = 0 /\ e.dw = 0 /\ UNCHANGED <<vars, fr, fw, err, dropped>>
      [] OTHER -> Step(e)
Spec == Init /\ [][Next]_<<vars, l, fr, fw, err, dropped>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
