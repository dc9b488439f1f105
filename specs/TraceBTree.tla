----------------------------- MODULE TraceBTree -----------------------------
EXTENDS BTree, TLC, Json, IOUtils
Shape == INSTANCE TreeShape WITH KW <- W
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lim
Sees(e) == isopen' => e.n = Len(items') /\ e.empty = (items' = <<>>)
Step(e) ==
    IF e.e \in {"crash", "hang", "deadlock", "livelock"} THEN FALSE ELSE
    /\ e.x = ""
    /\ (CASE e.e = "insert" -> Insert(e.v, e.p)
      [] e.e = "erase" -> EraseAt(e.p) /\ res'[1] = e.v
      [] e.e = "erasekey" -> EraseKey(e.k) /\ res'[1] = e.c
      [] e.e = "find" -> Find(e.k) /\ res' = e.r
      [] e.e = "lb" -> LowerBound(e.k) /\ res' = e.r
      [] e.e = "ub" -> UpperBound(e.k) /\ res' = e.r
      [] e.e = "fwd" -> Forward(e.p, e.k) /\ res' = e.r
      [] e.e = "bwd" -> Backward(e.p, e.k) /\ res' = e.r
      [] e.e = "build" -> Build(e.v, e.m)
      [] e.e = "getmeta" -> GetMeta /\ res'[1] = e.m
      [] e.e = "close" -> Close
      [] e.e = "open" -> Open
      [] e.e = "torn" -> e.r = "refused" /\ UNCHANGED vars
      [] e.e = "shape" -> Shape!Good(e.t, ordered, items, lim[1], lim[2], lim[3], lim[4]) /\ UNCHANGED vars
      [] OTHER -> FALSE)
    /\ Sees(e)
Init == l = 1 /\ ordered = TRUE /\ items = <<>> /\ meta = "" /\ isopen = TRUE /\ res = <<>> /\ lim = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.e = "new" THEN Start(e.ordered) /\ lim' = <<e.lmin, e.lmax, e.imin, e.imax>> ELSE Step(e) /\ lim' = lim
Spec == Init /\ [][Next]_<<vars, l, lim>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
