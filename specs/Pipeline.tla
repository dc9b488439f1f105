------------------------------ MODULE Pipeline ------------------------------
(* A run of a pipeline: nodes that push to, pull from and depend on each other are prepared, run phase by phase and
   ended; out-of-band data, memory, files and data structures are handed out on the way. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES g,       \* the pipeline: [n, push, pull, dep, fdep, ms, evac, stop, second, lim, users], constant during a run
          comp,    \* node -> its phase (the smallest node of it)
          st,      \* node -> stage
          run,     \* phase that runs, 0 between phases
          hist,    \* phases in the order they ran
          going,   \* initiator that runs
          evd,     \* nodes that were evacuated
          par,     \* node -> resource -> [lo, hi, fr]
          giv,     \* node -> resource -> what it was given, -1 if nothing yet
          fto,     \* node -> key -> the node that last forwarded to it, 0 if none
          val,     \* node -> key -> what it forwards
          glob,    \* key -> what the whole pipeline was given, -1 if nothing
          dlim,    \* data structure -> [lo, hi]
          dmem,    \* data structure -> memory, -1 if nobody knows
          dset,    \* data structures that hold something
          over     \* "run", or how it ended
vars == <<g, comp, st, run, hist, going, evd, par, giv, fto, val, glob, dlim, dmem, dset, over>>
resvars == <<par, giv>>
datvars == <<fto, val, glob>>
dsvars == <<dlim, dmem, dset>>
Fresh == 0  Prepared == 1  Propagated == 2  Begun == 3  Gone == 4  Ended == 5
Inf == 2000000000
Nodes == 1..g.n
Keys == {"a", "b"}
Res == {"files", "mem"}
----------------------------------------------------------------------------
(* The shape of a pipeline. *)
RECURSIVE Join(_, _)
Join(lab, es) == IF es = {} THEN lab
                 ELSE LET e == CHOOSE x \in es : TRUE
                          a == lab[e[1]]  b == lab[e[2]]  m == IF a < b THEN a ELSE b
                      IN Join([n \in DOMAIN lab |-> IF lab[n] \in {a, b} THEN m ELSE lab[n]], es \ {e})
Components(n, es) == Join([x \in 1..n |-> x], es)
Phases == {comp[n] : n \in Nodes}
InPhase(p) == {n \in Nodes : comp[n] = p}
Callees(n) == {v \in Nodes : <<n, v>> \in g.push \cup g.pull}
Callers(n) == {v \in Nodes : <<v, n>> \in g.push \cup g.pull}
Initiators(p) == {n \in InPhase(p) : Callers(n) = {}}
ItemPred(n) == {v \in Nodes : <<v, n>> \in g.push \/ <<n, v>> \in g.pull}
ItemSucc(n) == {v \in Nodes : <<n, v>> \in g.push \/ <<v, n>> \in g.pull}
AllDep == g.dep \cup g.fdep \cup g.ms
\* the second pipeline comes after the first one
SinkOf(S) == {n \in S : ItemSucc(n) = {} /\ \A e \in AllDep : e[2] # n}
SourceOf(S) == {n \in S : ItemPred(n) = {} /\ \A e \in AllDep : e[1] # n}
Then == IF g.second = {} THEN {} ELSE {<<v, u>> : v \in SourceOf(g.second), u \in SinkOf(Nodes \ g.second)}
Sinks == {n \in SinkOf(Nodes) : \A e \in Then : e[2] # n}
Before(p) == {comp[e[2]] : e \in {x \in AllDep \cup Then : comp[x[1]] = p}} \ {p}
Shares == {<<comp[e[2]], comp[e[1]]>> : e \in g.ms} \ {<<p, p>> : p \in Phases}
\* what one phase keeps in memory for another and cannot put aside
Fixed == {<<comp[e[2]], comp[e[1]]>> : e \in {x \in g.ms : ~g.evac[x[2]]}} \ {<<p, p>> : p \in Phases}
\* may p run after done, the last of which is last?
MayFollow(p, done, last) == /\ p \notin done /\ Before(p) \subseteq done
                            /\ \A e \in Fixed : (e[1] = last \/ e[2] = p) => (e[1] = last /\ e[2] = p)
RECURSIVE Orderable(_, _)
Orderable(done, last) == (done = Phases) \/ \E p \in Phases : MayFollow(p, done, last) /\ Orderable(done \cup {p}, p)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Best(_, _)   \* the most pairs of phases that share memory and can run next to each other
Best(done, last) == IF done = Phases THEN 0
                    ELSE LET next == {p \in Phases : p \notin done /\ Before(p) \subseteq done}
                         IN IF next = {} THEN -1000 ELSE Max({(IF <<last, p>> \in Shares THEN 1 ELSE 0) + Best(done \cup {p}, p) : p \in next})
Satisfied == Cardinality({i \in 1..(Len(hist) - 1) : <<hist[i], hist[i + 1]>> \in Shares})
----------------------------------------------------------------------------
(* Order of the calls. *)
Flow == <<g, comp, par, giv, fto, val, glob, dlim, dmem, dset, over>>
Prepare(n) == /\ over = "run" /\ st[n] = Fresh /\ \A m \in Nodes : st[m] \in {Fresh, Prepared}
              /\ \A m \in ItemPred(n) : st[m] = Prepared
              /\ st' = [st EXCEPT ![n] = Prepared] /\ UNCHANGED <<Flow, run, hist, going, evd>>
Last == IF hist = <<>> THEN 0 ELSE hist[Len(hist)]
\* what is to be put aside if p runs next
ToEvacuate(p) == IF Last = 0 THEN {} ELSE {e[2] : e \in {x \in g.ms : comp[x[2]] = Last /\ g.evac[x[2]] /\ comp[x[1]] \notin {p, Last}}}
Started == {hist[i] : i \in DOMAIN hist}
Propagate(n) == /\ over = "run" /\ st[n] = Prepared /\ \A m \in Nodes : st[m] # Fresh
                /\ going = 0
                /\ (IF run = 0 THEN /\ \A m \in Nodes : comp[m] \in Before(comp[n]) => st[m] = Ended
                                    /\ (\A e \in Fixed : e[2] = comp[n] => Last = e[1])
                                    /\ evd \cap InPhase(Last) \subseteq {e[2] : e \in g.ms} /\ ToEvacuate(comp[n]) \subseteq evd
                                    /\ \A m \in evd : comp[m] = Last => \E e \in g.ms : e[2] = m /\ comp[e[1]] # comp[n]
                                    /\ run' = comp[n] /\ hist' = Append(hist, comp[n])
                    ELSE comp[n] = run /\ UNCHANGED <<run, hist>>)
                /\ \A m \in InPhase(comp[n]) : st[m] \in {Prepared, Propagated}
                /\ \A m \in ItemPred(n) : st[m] = Propagated
                /\ st' = [st EXCEPT ![n] = Propagated] /\ UNCHANGED <<Flow, going, evd>>
Begin(n) == /\ over = "run" /\ comp[n] = run /\ st[n] = Propagated /\ \A m \in InPhase(run) : st[m] \in {Propagated, Begun}
            /\ \A m \in Callees(n) : st[m] = Begun
            /\ st' = [st EXCEPT ![n] = Begun] /\ UNCHANGED <<Flow, run, hist, going, evd>>
Go(n) == /\ over = "run" /\ comp[n] = run /\ going = 0 /\ n \in Initiators(run) /\ st[n] = Begun /\ \A m \in InPhase(run) : st[m] \in {Begun, Gone}
         /\ going' = n /\ UNCHANGED <<Flow, st, run, hist, evd>>
Return(n) == /\ over = "run" /\ going = n /\ going' = 0 /\ st' = [st EXCEPT ![n] = Gone] /\ UNCHANGED <<Flow, run, hist, evd>>
\* items reach nodes that have begun and not ended
Call(u, v, how) == /\ over = "run" /\ <<u, v>> \in how /\ comp[u] = run /\ st[v] \in {Begun, Gone} /\ st[u] \in {Begun, Gone, Ended} /\ UNCHANGED vars
End(n) == /\ over = "run" /\ comp[n] = run /\ going = 0 /\ st[n] \in {Begun, Gone} /\ \A m \in Initiators(run) : st[m] \in {Gone, Ended}
          /\ \A m \in Callers(n) : st[m] = Ended
          /\ st' = [st EXCEPT ![n] = Ended]
          /\ run' = (IF \A m \in InPhase(run) \ {n} : st[m] = Ended THEN 0 ELSE run)
          /\ UNCHANGED <<Flow, hist, going, evd>>
Evacuate(n) == /\ over = "run" /\ run = 0 /\ comp[n] = Last /\ g.evac[n] /\ n \notin evd
               /\ (\E e \in g.ms : e[2] = n /\ comp[e[1]] \notin Started)
               /\ evd' = evd \cup {n} /\ UNCHANGED <<Flow, st, run, hist, going>>
Done == /\ over = "run" /\ \A n \in Nodes : st[n] = Ended
        /\ (Fixed = {} => Satisfied = Best({}, 0))
        /\ over' = "done" /\ UNCHANGED <<g, comp, st, run, hist, going, evd, par, giv, fto, val, glob, dlim, dmem, dset>>
Refused == /\ over = "run" /\ (\A n \in Nodes : st[n] = Fresh) /\ ~Orderable({}, 0)
           /\ over' = "refused" /\ UNCHANGED <<g, comp, st, run, hist, going, evd, par, giv, fto, val, glob, dlim, dmem, dset>>
----------------------------------------------------------------------------
(* Out-of-band data. *)
FwdSucc(n) == {v \in Nodes : \/ <<n, v>> \in g.push \/ <<v, n>> \in g.pull \cup g.fdep \cup g.ms \cup Then}
RECURSIVE Spread(_, _, _, _)
Spread(from, seen, front, k) ==
  IF k = 0 \/ front = {} THEN seen
  ELSE LET next == UNION {FwdSucc(n) : n \in {x \in front : x = from \/ x \notin g.stop}} \ seen
       IN Spread(from, seen \cup next, next, k - 1)
Forward(n, key, v, k) == LET S == Spread(n, {n}, {n}, k) IN
   /\ over = "run"
   /\ val' = [val EXCEPT ![n][key] = v] /\ fto' = [m \in Nodes |-> IF m \in S THEN [fto[m] EXCEPT ![key] = n] ELSE fto[m]]
   /\ UNCHANGED <<g, comp, st, run, hist, going, evd, resvars, glob, dsvars, over>>
ForwardAll(key, v) == glob' = [glob EXCEPT ![key] = v] /\ UNCHANGED <<g, comp, st, run, hist, going, evd, resvars, fto, val, dsvars, over>>
Seen(n, key) == IF fto[n][key] # 0 THEN val[fto[n][key]][key] ELSE glob[key]
----------------------------------------------------------------------------
(* Memory and files. *)
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(S \ {x}, f)
Params(n, r, p) == par' = [par EXCEPT ![n][r] = p] /\ UNCHANGED <<g, comp, st, run, hist, going, evd, giv, datvars, dsvars, over>>
Give(n, r, a) == giv' = [giv EXCEPT ![n][r] = a] /\ UNCHANGED <<g, comp, st, run, hist, going, evd, par, datvars, dsvars, over>>
\* S share limit less what is taken; least is what the minima come to, slack the rounding
Fair(S, r, limit, taken, least, exact) ==
  LET A(n) == giv[n][r]  P(n) == par[n][r]
      total == Sum(S, [n \in S |-> A(n)])
      lows == \A n \in S : A(n) = P(n).lo
  IN /\ \A n \in S : A(n) >= P(n).lo /\ A(n) <= P(n).hi
     /\ (IF least > limit THEN lows
         ELSE /\ (total + taken <= limit \/ lows)
              /\ \A n \in S : P(n).fr = 0 => A(n) = P(n).lo
              \* in proportion to the fractions, except at the bounds
              /\ \A i, j \in S : A(i) > P(i).lo /\ A(j) < P(j).hi /\ P(j).fr > 0 => A(i) * P(j).fr <= (A(j) + 1) * P(i).fr
              \* nothing is left over that somebody could use
              /\ (exact /\ (\E n \in S : P(n).fr > 0 /\ A(n) < P(n).hi) => total + taken >= limit - Cardinality(S) - 3))
Lows(S, r) == Sum(S, [n \in S |-> par[n][r].lo])
Stored == {d \in DOMAIN dlim : g.users[d] # {}}
\* data structures somebody has used or uses in this phase, and somebody will use or uses
Alive(p) == {d \in Stored : (\E n \in g.users[d] : comp[n] \in Started) /\ (\E n \in g.users[d] : comp[n] = p \/ st[n] # Ended)}
Given(p) == \A n \in InPhase(p), r \in Res : giv[n][r] >= 0
FilesFair(p) == Fair(InPhase(p), "files", g.lim.files, 0, Lows(InPhase(p), "files"), TRUE)
MemFair(p) == LET al == Alive(p) IN
              Fair(InPhase(p), "mem", g.lim.mem, Sum(al, [d \in al |-> dmem[d]]), Lows(InPhase(p), "mem") + Sum(al, [d \in al |-> dlim[d].lo]), \A d \in al : dmem[d] >= 0)
DsLimit(d, lo, hi) == dlim' = [dlim EXCEPT ![d] = [lo |-> IF lo > @.lo THEN lo ELSE @.lo, hi |-> IF hi < @.hi THEN hi ELSE @.hi]]
                      /\ UNCHANGED <<g, comp, st, run, hist, going, evd, resvars, datvars, dmem, dset, over>>
DsMem(n, d, a) == /\ n \in g.users[d] /\ dmem[d] \in {-1, a}
                  /\ (dlim[d].lo <= dlim[d].hi => a >= dlim[d].lo /\ a <= dlim[d].hi)
                  /\ dmem' = [dmem EXCEPT ![d] = a] /\ UNCHANGED <<g, comp, st, run, hist, going, evd, resvars, datvars, dlim, dset, over>>
DsSet(n, d) == n \in g.users[d] /\ d \notin dset /\ dset' = dset \cup {d} /\ UNCHANGED <<g, comp, st, run, hist, going, evd, resvars, datvars, dlim, dmem, over>>
UsedUp(d) == \A n \in g.users[d] : st[n] = Ended
DsFree(d) == d \in dset /\ (over # "run" \/ UsedUp(d)) /\ dset' = dset \ {d} /\ UNCHANGED <<g, comp, st, run, hist, going, evd, resvars, datvars, dlim, dmem, over>>
----------------------------------------------------------------------------
Throw == over = "run" /\ over' = "thrown" /\ UNCHANGED <<g, comp, st, run, hist, going, evd, resvars, datvars, dsvars>>
Caught == over = "thrown" /\ over' = "caught" /\ UNCHANGED <<g, comp, st, run, hist, going, evd, resvars, datvars, dsvars>>
=============================================================================
