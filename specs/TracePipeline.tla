---------------------------- MODULE TracePipeline ----------------------------
EXTENDS Pipeline, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, boom
Range(s) == {s[i] : i \in DOMAIN s}
Graph(e) == [n |-> e.n, push |-> Range(e.push), pull |-> Range(e.pull), dep |-> Range(e.nfdep), fdep |-> Range(e.dep), ms |-> Range(e.msdep),
             evac |-> e.evac, stop |-> Range(e.stop), second |-> Range(e.second), lim |-> [mem |-> e.mem, files |-> e.files],
             users |-> [d \in 0..(e.d - 1) |-> {u[1] : u \in {x \in Range(e.duse) : x[2] = d}}], res |-> e.res]
New(e) == /\ g' = Graph(e) /\ comp' = Components(e.n, Range(e.push) \cup Range(e.pull))
          /\ st' = [n \in 1..e.n |-> Fresh] /\ run' = 0 /\ hist' = <<>> /\ going' = 0 /\ evd' = {}
          /\ par' = [n \in 1..e.n |-> [r \in Res |-> [lo |-> 0, hi |-> Inf, fr |-> 0]]] /\ giv' = [n \in 1..e.n |-> [r \in Res |-> -1]]
          /\ fto' = [n \in 1..e.n |-> [k \in Keys |-> 0]] /\ val' = [n \in 1..e.n |-> [k \in Keys |-> 0]] /\ glob' = [k \in Keys |-> -1]
          /\ dlim' = [d \in 0..(e.d - 1) |-> [lo |-> 0, hi |-> Inf]] /\ dmem' = [d \in 0..(e.d - 1) |-> -1] /\ dset' = {} /\ over' = "run"
\* before anything of the first phase runs, everything was given once
FirstRound == hist = <<>> => \A p \in Phases : Given(p) /\ FilesFair(p) /\ Fair(InPhase(p), "mem", g.lim.mem, 0, Lows(InPhase(p), "mem"), Stored = {})
StartOK(n) == run # 0 \/ (FirstRound /\ \A d \in dset : ~UsedUp(d))
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            /\ CASE e.e = "new" -> New(e)
                 [] e.e = "prepare" -> Prepare(e.n)
                 [] e.e = "propagate" -> Propagate(e.n) /\ StartOK(e.n)
                 [] e.e = "begin" -> Begin(e.n) /\ ((\A m \in InPhase(run) : st[m] = Propagated) => Given(run) /\ FilesFair(run))
                 [] e.e = "go" -> Go(e.n) /\ ((\A m \in InPhase(run) : st[m] # Gone) => MemFair(run))
                 [] e.e = "gone" -> Return(e.n)
                 [] e.e = "push" -> Call(e.n, e.to, g.push)
                 [] e.e = "pull" -> Call(e.n, e.to, g.pull)
                 [] e.e = "end" -> End(e.n)
                 [] e.e = "evacuate" -> Evacuate(e.n)
                 [] e.e = "fwd" -> Forward(e.n, e.key, e.v, e.k)
                 [] e.e = "pfwd" -> ForwardAll(e.key, e.v)
                 [] e.e = "get" -> e.found = (Seen(e.n, e.key) >= 0) /\ (e.found => e.v = Seen(e.n, e.key)) /\ (~e.found => e.v = 0) /\ UNCHANGED vars
                 [] e.e = "pget" -> /\ over # "run" /\ UNCHANGED vars
                                    /\ e.found = (\E n \in Sinks : Seen(n, e.key) >= 0)
                                    /\ (e.found => \E n \in Sinks : Seen(n, e.key) = e.v)
                 [] e.e = "set" -> over = "run" /\ Params(e.n, e.r, [lo |-> e.lo, hi |-> e.hi, fr |-> e.fr])
                 [] e.e = "give" -> over = "run" /\ Give(e.n, e.r, e.a) /\ st[e.n] \in {Prepared, Propagated}
                 [] e.e = "have" -> e.mem = giv[e.n].mem /\ e.files = giv[e.n].files /\ UNCHANGED vars
                 [] e.e = "dslim" -> DsLimit(e.d, e.lo, e.hi)
                 [] e.e = "ds" -> DsMem(e.n, e.d, e.mem)
                 [] e.e = "dsset" -> DsSet(e.n, e.d)
                 [] e.e = "dsget" -> e.d \in dset /\ e.v = e.d /\ UNCHANGED vars
                 [] e.e = "dsfree" -> DsFree(e.d)
                 [] e.e = "done" -> Done /\ \A d \in dset : ~UsedUp(d)
                 [] e.e = "refused" -> Refused
                 [] e.e = "throw" -> Throw
                 [] e.e = "caught" -> Caught /\ boom = <<e.v, e.kind>>
                 [] e.e = "destroyed" -> over # "run" /\ over # "thrown" /\ e.ns = [i \in 1..g.n |-> i] /\ dset = {} /\ UNCHANGED vars
                 [] OTHER -> FALSE
            /\ boom' = (IF e.e = "throw" THEN <<e.v, e.kind>> ELSE IF e.e = "new" THEN <<>> ELSE boom)
TSpec == /\ l = 1 /\ boom = <<>> /\ g = [n |-> 0] /\ comp = <<>> /\ st = <<>> /\ run = 0 /\ hist = <<>> /\ going = 0 /\ evd = {} /\ par = <<>> /\ giv = <<>>
         /\ fto = <<>> /\ val = <<>> /\ glob = <<>> /\ dlim = <<>> /\ dmem = <<>> /\ dset = {} /\ over = "none"
         /\ [][TNext]_<<vars, l, boom>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
