-------------------------- MODULE TraceFaultyBlocks --------------------------
EXTENDS FaultyBlocks, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fr, fw, err
Word == IF err = 28 THEN "full" ELSE "io"
Sees(e) == res' = [x |-> e.x, r |-> e.r]
Step(e) == LET hit == e.fr # fr \/ e.fw # fw IN
    /\ fr' = e.fr /\ fw' = e.fw /\ UNCHANGED err
    /\ IF hit
       THEN /\ e.x = Word
            /\ CASE e.e = "bwrite" /\ ~cached -> live' = Set(live, e.b, NONE) /\ UNCHANGED free
                 [] e.e = "free" -> (live' = Drop(live, e.b) /\ free' = free \cup {e.b})   \* the driver does not use it again
                 [] OTHER -> UNCHANGED <<live, free>>
            /\ res' = Err(e.x) /\ UNCHANGED cached
       ELSE /\ CASE e.e = "alloc" -> Alloc(e.b)
                 [] e.e = "free" -> Free(e.b)
                 [] e.e = "bwrite" -> Write(e.b, e.v)
                 [] e.e = "bread" -> Len(e.r) = 1 /\ Read(e.b, e.r[1])
                 [] OTHER -> FALSE
            /\ Sees(e)
Init == l = 1 /\ fr = 0 /\ fw = 0 /\ err = 0 /\ cached = FALSE /\ live = [x \in {} |-> NONE] /\ free = {} /\ res = Ok(<<>>)
Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN
    CASE e.e = "new" -> Start(e.kind = "cache") /\ fr' = 0 /\ fw' = 0 /\ err' = e.err
      [] e.e \in {"calm", "reopen", "drop", "end"} -> e.fr = fr /\ e.fw = fw /\ UNCHANGED <<vars, fr, fw, err>>
      [] OTHER -> Step(e)
Spec == Init /\ [][Next]_<<vars, l, fr, fw, err>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
