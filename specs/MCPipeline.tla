----------------------------- MODULE MCPipeline -----------------------------
(* Small pipelines: every relation between N nodes, every order of calls. *)
EXTENDS Pipeline, TLC
CONSTANTS N, KINDS, FORWARDS
NN == 1..N
Flow0 == {<<i, j>> : i, j \in NN}
Fwd == {e \in Flow0 : e[1] < e[2]}
Rev(S) == {<<e[2], e[1]>> : e \in S}
Of(k, f) == {e \in Fwd : f[e] = k}
Shape(f, ev, stop) == [n |-> N, push |-> Of("push", f), pull |-> Rev(Of("pull", f)), dep |-> Rev(Of("dep", f)), fdep |-> {},
                 ms |-> Rev(Of("ms", f)), evac |-> ev, stop |-> stop, second |-> {}, lim |-> [files |-> 0, mem |-> 0], users |-> [d \in {} |-> {}]]
RECURSIVE Rank(_, _)
Rank(S, es) == S = {} \/ \E x \in S : (\A e \in es : e[2] = x => e[1] \notin S) /\ Rank(S \ {x}, es)
Init == /\ \E f \in [Fwd -> KINDS], ev \in [NN -> BOOLEAN], stop \in SUBSET NN :
             /\ (Of("ms", f) = {} => ev = [x \in NN |-> TRUE]) /\ (~FORWARDS => stop = {})
             /\ g = Shape(f, ev, stop)
             /\ Rank(NN, Of("push", f) \cup Rev(Of("pull", f)))   \* nobody calls itself
             /\ comp = Components(N, Of("push", f) \cup Of("pull", f))
        /\ st = [n \in NN |-> Fresh] /\ run = 0 /\ hist = <<>> /\ going = 0 /\ evd = {}
        /\ par = <<>> /\ giv = <<>> /\ fto = [n \in NN |-> [k \in Keys |-> 0]] /\ val = [n \in NN |-> [k \in Keys |-> -1]]
        /\ glob = [k \in Keys |-> -1] /\ dlim = <<>> /\ dmem = <<>> /\ dset = {} /\ over = "run"
Calls == \E n \in NN : Prepare(n) \/ Propagate(n) \/ Begin(n) \/ Go(n) \/ Return(n) \/ End(n) \/ Evacuate(n)
Fwds == FORWARDS /\ Cardinality({n \in NN : val[n]["a"] > 0}) < 2 /\ \E n \in NN, k \in 1..N : st[n] = Propagated /\ val[n]["a"] = -1 /\ Forward(n, "a", n, k)
Next == IF over = "run" /\ ~Orderable({}, 0) THEN Refused ELSE Calls \/ Fwds \/ Done
\* user code throws from any callback
FaultSpec == Init /\ [][Next \/ Throw \/ Caught]_vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Calls \/ Done \/ Refused)
----------------------------------------------------------------------------
Position(p) == CHOOSE i \in DOMAIN hist : hist[i] = p
\* callers never meet a node that has not begun or has ended
SafeCalls == \A u \in NN, v \in NN : (<<u, v>> \in g.push \cup g.pull /\ st[u] \in {Begun, Gone}) => st[v] \in {Begun, Gone}
OnePhase == \A n \in NN : st[n] \in {Propagated, Begun, Gone} => comp[n] = run
RunOnce == \A i, j \in DOMAIN hist : i # j => hist[i] # hist[j]
DependenciesFirst == \A e \in AllDep : comp[e[1]] # comp[e[2]] /\ comp[e[1]] \in Started => comp[e[2]] \in Started /\ Position(comp[e[2]]) < Position(comp[e[1]])
SharedOrPutAside == \A e \in g.ms : comp[e[1]] \in Started /\ comp[e[1]] # comp[e[2]] => (Position(comp[e[1]]) = Position(comp[e[2]]) + 1 \/ e[2] \in evd)
NotInVain == \A n \in evd : \E e \in g.ms : e[2] = n /\ comp[e[1]] # n
Finished == over = "done" => Started = Phases /\ \A n \in NN : st[n] = Ended
\* nobody is stuck unless what cannot be put aside was in the way
NotStuck == (over = "run" /\ Fixed = {} /\ run # 0) => ENABLED Calls
\* forwarded data goes only where items go, or to what depends on it
RECURSIVE Path(_, _, _)
Path(n, m, k) == n = m \/ (k > 0 /\ \E x \in FwdSucc(n) : x = m \/ (x \notin g.stop /\ Path(x, m, k - 1)))
Later(n) == {m \in NN : Path(n, m, N)}
ForwardedLater == \A m \in NN : fto[m]["a"] # 0 => m \in Later(fto[m]["a"])
OwnFirst == \A n \in NN : val[n]["a"] > 0 => fto[n]["a"] # 0

\* nothing runs any more once an exception was thrown, and it comes out
QuietAfterThrow == [][over # "run" => over = "thrown" /\ over' = "caught" /\ UNCHANGED <<g, comp, st, run, hist, going, evd, fto, val, glob>>]_vars
NotLost == over = "thrown" => ENABLED Caught
Ends == <>(over \in {"done", "refused"} \/ (over = "run" /\ ~ENABLED Calls))
=============================================================================
