------------------------------- MODULE Jobs -------------------------------
(* The job pool as its user sees it: every job goes through idle -> queued -> running -> returned -> idle, where the
   last step (its completion notification) happens once it and everything below it in the spawn tree has returned. *)
EXTENDS Naturals, FiniteSets, Sequences
VARIABLES st,    \* job -> "idle", "queued", "running", "returned"
          par,   \* job -> the job it was last enqueued under, 0 if none
          ask    \* thread -> what was true of the job when the question whether it is done was asked
vars == <<st, par, ask>>
Jobs == DOMAIN st
RECURSIVE Below(_, _)
\* everything below the jobs of S in the spawn tree
Below(S, n) == LET K == {k \in Jobs : par[k] \in S} \ S IN IF K = {} \/ n = 0 THEN S ELSE Below(S \cup K, n - 1)
Tree(j) == Below({j}, Cardinality(Jobs))
Complete(j) == \A k \in Tree(j) : st[k] = "idle"
Enqueue(j, p) == /\ st[j] = "idle"
                 /\ (p # 0 => st[p] = "running" \/ (st[p] = "returned" /\ \E k \in Tree(p) : st[k] = "running"))
                 /\ st' = [st EXCEPT ![j] = "queued"] /\ par' = [par EXCEPT ![j] = p] /\ UNCHANGED ask
\* enqueueing a job that is under way is refused
Refuse(j) == st[j] # "idle" /\ UNCHANGED vars
Start(j) == st[j] = "queued" /\ st' = [st EXCEPT ![j] = "running"] /\ UNCHANGED <<par, ask>>
Return(j) == st[j] = "running" /\ st' = [st EXCEPT ![j] = "returned"] /\ UNCHANGED <<par, ask>>
Done(j) == /\ st[j] = "returned" /\ \A k \in Tree(j) : st[k] \in {"returned", "idle"}
           /\ st' = [st EXCEPT ![j] = "idle"] /\ UNCHANGED <<par, ask>>
Joined(j) == Complete(j) /\ UNCHANGED vars
Ask(t, j) == ask' = [k \in DOMAIN ask \cup {t} |-> IF k = t THEN Complete(j) ELSE ask[k]] /\ UNCHANGED <<st, par>>
\* "yes" only if complete by now; "no" only if it was not complete when asked
Answer(t, j, r) == (IF r THEN Complete(j) ELSE ~ask[t]) /\ UNCHANGED vars
=============================================================================
