--------------------------- MODULE ResourcesDesign ---------------------------
(* Design: several threads ask for and give back amounts of one counter under an enforced limit.
   Rollback = FALSE: read the counter, compare with the limit, compare-and-swap; retry when it moved.
   Rollback = TRUE: add, compare, subtract again when over the limit.
   Both keep the counter equal to what is granted and within the limit; only the first never refuses
   a request for which there was room (Fair). *)
EXTENDS Integers, FiniteSets
CONSTANTS Procs, Amounts, Limit, Rollback
VARIABLES used, granted, pc, want, seen, roomAlways
vars == <<used, granted, pc, want, seen, roomAlways>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
G == Sum(granted, Procs)
Init == used = 0 /\ granted = [p \in Procs |-> 0] /\ pc = [p \in Procs |-> "idle"] /\ want = [p \in Procs |-> 0]
        /\ seen = [p \in Procs |-> 0] /\ roomAlways = [p \in Procs |-> TRUE]
\* room for p's request, counting what is granted
Watch(g) == roomAlways' = [p \in Procs |-> IF pc'[p] = "idle" THEN TRUE
                             ELSE IF pc[p] = "idle" THEN g + want'[p] <= Limit ELSE roomAlways[p] /\ g + want'[p] <= Limit]
Ask(p, n) == pc[p] = "idle" /\ granted[p] = 0 /\ want' = [want EXCEPT ![p] = n]
             /\ pc' = [pc EXCEPT ![p] = IF Rollback THEN "add" ELSE "load"] /\ UNCHANGED <<used, granted, seen>> /\ Watch(G)
Load(p) == pc[p] = "load" /\ seen' = [seen EXCEPT ![p] = used]
           /\ pc' = [pc EXCEPT ![p] = IF used + want[p] > Limit THEN "refuse" ELSE "swap"] /\ UNCHANGED <<used, granted, want>> /\ Watch(G)
Swap(p) == pc[p] = "swap" /\ UNCHANGED <<seen, want>>
           /\ (IF used = seen[p] THEN used' = used + want[p] /\ granted' = [granted EXCEPT ![p] = want[p]] /\ pc' = [pc EXCEPT ![p] = "idle"]
               ELSE pc' = [pc EXCEPT ![p] = "load"] /\ UNCHANGED <<used, granted>>)
           /\ Watch(Sum(granted', Procs))
Add(p) == pc[p] = "add" /\ used' = used + want[p] /\ seen' = [seen EXCEPT ![p] = used + want[p]]
          /\ (IF used + want[p] > Limit THEN pc' = [pc EXCEPT ![p] = "sub"] /\ UNCHANGED granted
              ELSE pc' = [pc EXCEPT ![p] = "idle"] /\ granted' = [granted EXCEPT ![p] = want[p]])
          /\ UNCHANGED want /\ Watch(Sum(granted', Procs))
Sub(p) == pc[p] = "sub" /\ used' = used - want[p] /\ pc' = [pc EXCEPT ![p] = "refuse"] /\ UNCHANGED <<granted, want, seen>> /\ Watch(G)
Refuse(p) == pc[p] = "refuse" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<used, granted, want, seen>> /\ Watch(G)
GiveBack(p) == pc[p] = "idle" /\ granted[p] > 0 /\ used' = used - granted[p] /\ granted' = [granted EXCEPT ![p] = 0]
               /\ UNCHANGED <<pc, want, seen>> /\ Watch(Sum(granted', Procs))
Next == \E p \in Procs : (\E n \in Amounts : Ask(p, n)) \/ Load(p) \/ Swap(p) \/ Add(p) \/ Sub(p) \/ Refuse(p) \/ GiveBack(p)
Spec == Init /\ [][Next]_vars
Quiet == \A p \in Procs : pc[p] = "idle"
WithinLimit == G <= Limit
Exact == (IF Rollback THEN used = G + Sum(want, {p \in Procs : pc[p] = "sub"}) ELSE used = G) /\ (Quiet => used = G)
Fair == Rollback \/ \A p \in Procs : pc[p] = "refuse" => ~roomAlways[p]
=============================================================================
