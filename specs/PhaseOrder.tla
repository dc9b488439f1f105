----------------------------- MODULE PhaseOrder -----------------------------
(* How tpie/pipelining/runtime.cpp orders phases (get_phases, satisfiable_graph): phases that have to be next to each
   other are contracted; the rest is cut where no memory is shared, edges with a detour are dropped, and in each part
   the largest set of sharing pairs that leaves no cycle is chosen. Checked for all dependency graphs of N phases
   against the definition: orders that respect the dependencies and keep the fixed pairs together, with as many
   sharing pairs next to each other as possible. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, COLOURS, REDUCE, CHECKCYCLE, CYCLES
VARIABLES black, red, green, pc
vars == <<black, red, green, pc>>
P == 1..N
Pairs == {<<i, j>> : i, j \in P}
All == black \cup red \cup green

RECURSIVE Reach(_, _, _)
Reach(E, front, seen) == IF front = {} THEN seen
                         ELSE LET next == {e[2] : e \in {x \in E : x[1] \in front}} \ seen IN Reach(E, next, seen \cup next)
From(E, x) == Reach(E, {x}, {})          \* what can be reached from x by at least one edge
Acyclic(E) == \A x \in P : x \notin From(E, x)
----------------------------------------------------------------------------
(* What is wanted. *)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
MayFollow(p, done, last) == /\ p \notin done /\ {e[1] : e \in {x \in All : x[2] = p}} \subseteq done
                            /\ \A e \in green : (e[1] = last \/ e[2] = p) => (e[1] = last /\ e[2] = p)
RECURSIVE Best(_, _)       \* -1: no order
Best(done, last) == IF done = P THEN 0
                    ELSE LET v == {<<p, Best(done \cup {p}, p)>> : p \in {x \in P : MayFollow(x, done, last)}}
                             ok == {x \in v : x[2] >= 0}
                         IN IF ok = {} THEN -1 ELSE Max({(IF <<last, x[1]>> \in red THEN 1 ELSE 0) + x[2] : x \in ok})
----------------------------------------------------------------------------
(* What is done. *)
Clash(E) == \E e, f \in E : e # f /\ (e[1] = f[1] \/ e[2] = f[2])
RECURSIVE Label(_, _)      \* contract along edges
Label(lab, E) == IF E = {} THEN lab
                 ELSE LET e == CHOOSE x \in E : TRUE
                          a == lab[e[1]]  b == lab[e[2]]  m == IF a < b THEN a ELSE b
                      IN Label([x \in P |-> IF lab[x] \in {a, b} THEN m ELSE lab[x]], E \ {e})
Contract(E, lab) == {<<lab[e[1]], lab[e[2]]>> : e \in E} \ {<<x, x>> : x \in P}
Lab == Label([x \in P |-> x], green)
Red1 == Contract(red, Lab)
Black1 == Contract(black, Lab) \ Red1
\* an edge is dropped if there is another way
Reduced(E) == {e \in E : ~\E m \in P : <<e[1], m>> \in E /\ e[2] \in From(E, m)}
E1 == IF REDUCE THEN Reduced(Red1 \cup Black1) ELSE Red1 \cup Black1
R1 == Red1 \cap E1
Cut == E1 \cup {<<e[2], e[1]>> : e \in R1}
SamePart(x, y) == x = y \/ (y \in From(Cut, x) /\ x \in From(Cut, y))
Choices(r) == {c \in SUBSET r : ~Clash(c)}
Possible(c, es) == Acyclic(Contract(es, Label([x \in P |-> x], c)))
PartBest(x) == LET V == {y \in P : SamePart(x, y)}
                   es == {e \in E1 : e[1] \in V /\ e[2] \in V}
                   es2 == IF REDUCE THEN Reduced(es) ELSE es
                   r == R1 \cap es2
               IN Max({Cardinality(c) : c \in {d \in Choices(r) : Possible(d, es2)}})
Leaders == {x \in P : \A y \in P : SamePart(x, y) => x <= y}
RECURSIVE SumBest(_)
SumBest(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN PartBest(x) + SumBest(S \ {x})
Refused == Clash(green) \/ (CHECKCYCLE /\ ~Acyclic(All)) \/ ~Acyclic(Contract(All, Lab))
\* an order by the contracted graph can satisfy more than the pairs that were red before contracting, and not fewer
Result == SumBest(Leaders)
----------------------------------------------------------------------------
Candidates == IF CYCLES THEN {e \in Pairs : e[1] # e[2]} ELSE {e \in Pairs : e[1] < e[2]}
Init == /\ \E f \in [Candidates -> COLOURS] : /\ black = {e \in Candidates : f[e] \in {"b", "bg"}}
                                              /\ red = {e \in Candidates : f[e] = "r"}
                                              /\ green = {e \in Candidates : f[e] \in {"g", "bg"}}
        /\ pc = "go"
Next == pc = "go" /\ pc' = "done" /\ UNCHANGED <<black, red, green>>
Spec == Init /\ [][Next]_vars
RefusedRight == pc = "done" => (Refused <=> Best({}, 0) < 0)
Optimal == (pc = "done" /\ ~Refused /\ green = {}) => Result = Best({}, 0)
=============================================================================
