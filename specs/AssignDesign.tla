---------------------------- MODULE AssignDesign ----------------------------
(* How tpie/pipelining/runtime.cpp hands out memory: for each phase a factor is searched by doubling and bisection such
   that amounts in proportion to the fractions, clamped to the bounds, just fit; data structures get the smallest
   factor of the phases they live in, then the nodes of each phase get the rest. Factors are multiples of 1 / G. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS USERS, DS, PHASES, LOS, HIS, FRS, LIMITS, G, CMAX, STOPEARLY
VARIABLES lo, hi, fr, ph, lim, fac, dsf, pc
vars == <<lo, hi, fr, ph, lim, fac, dsf, pc>>
All == USERS \cup DS
RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(S \ {x}, f)
Sum(S, F(_)) == SumF(S, [x \in S |-> F(x)])
Clamp(l, h, v) == IF v < l THEN l ELSE IF v > h THEN h ELSE v
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
At(x, c) == Clamp(lo[x], hi[x], (c * fr[x]) \div G)
In(p) == {x \in All : p \in ph[x]}
Lo(x) == lo[x]
Fr(x) == fr[x]
Assigned(p, c, dsfac) == Sum(In(p) \cap USERS, LAMBDA x : At(x, c)) + Sum(In(p) \cap DS, LAMBDA d : IF dsfac[d] < 0 THEN At(d, c) ELSE At(d, dsfac[d]))
None == [d \in DS |-> -1]
RECURSIVE Double(_, _, _, _)
Double(p, c, old, dsfac) == LET a == Assigned(p, c, dsfac) IN
                            IF c >= CMAX \/ a >= lim \/ (STOPEARLY /\ a = old) THEN c ELSE Double(p, 2 * c, a, dsfac)
RECURSIVE Bisect(_, _, _, _)
Bisect(p, a, b, dsfac) == IF b - a <= 1 THEN a
                          ELSE LET c == (a + b) \div 2 IN IF Assigned(p, c, dsfac) > lim THEN Bisect(p, a, c, dsfac) ELSE Bisect(p, c, b, dsfac)
Factor(p, dsfac) == IF Sum(In(p), Lo) > lim \/ Sum(In(p), Fr) = 0 THEN 0 ELSE Bisect(p, 0, Double(p, 1, 0, dsfac), dsfac)
Init == /\ lo \in [All -> LOS] /\ hi \in [All -> HIS] /\ (\A x \in All : lo[x] <= hi[x])
        /\ fr \in [All -> FRS] /\ lim \in LIMITS
        /\ ph \in [All -> SUBSET PHASES] /\ (\A x \in USERS : Cardinality(ph[x]) = 1) /\ (\A d \in DS : ph[d] # {})
        /\ fac = [p \in PHASES |-> 0] /\ dsf = None /\ pc = "phases"
Phase1 == pc = "phases" /\ pc' = "ds" /\ fac' = [p \in PHASES |-> Factor(p, None)] /\ UNCHANGED <<lo, hi, fr, ph, lim, dsf>>
Structures == pc = "ds" /\ pc' = "nodes" /\ dsf' = [d \in DS |-> Min({fac[p] : p \in ph[d]})] /\ UNCHANGED <<lo, hi, fr, ph, lim, fac>>
Phase2 == pc = "nodes" /\ pc' = "done" /\ fac' = [p \in PHASES |-> Factor(p, dsf)] /\ UNCHANGED <<lo, hi, fr, ph, lim, dsf>>
Next == Phase1 \/ Structures \/ Phase2
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Amount(p, x) == IF x \in DS THEN At(x, dsf[x]) ELSE At(x, fac[p])
Total(p) == Sum(In(p), LAMBDA x : Amount(p, x))
Done == pc = "done"
Bounds == Done => \A p \in PHASES : \A x \in In(p) : Amount(p, x) >= lo[x] /\ Amount(p, x) <= hi[x]
Fits == Done => \A p \in PHASES : Total(p) <= lim \/ \A x \in In(p) \cap USERS : Amount(p, x) = lo[x]
FitsAlways == Done => \A p \in PHASES : Sum(In(p), Lo) <= lim => Total(p) <= lim
Proportion == Done => \A p \in PHASES : \A i, j \in In(p) \cap USERS :
                 Amount(p, i) > lo[i] /\ Amount(p, j) < hi[j] /\ fr[j] > 0 => Amount(p, i) * fr[j] <= (Amount(p, j) + 1) * fr[i]
\* what is left over is less than a unit for each, if the grid is fine enough
NothingLeft == Done => \A p \in PHASES : (Sum(In(p), Lo) <= lim /\ \E x \in In(p) \cap USERS : fr[x] > 0 /\ Amount(p, x) < hi[x])
                                           => Total(p) >= lim - Cardinality(In(p))
=============================================================================
