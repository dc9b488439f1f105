----------------------------- MODULE JobsDesign -----------------------------
(* The algorithm of tpie/job.cpp: a bounded queue, workers, jobs that run in the thread that enqueues them when the
   queue is full or there is no worker, dependency counts and completion passed up the tree. A submitting thread
   enqueues the roots and joins them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Shape,     \* number of the spawn forest
          Cap, Workers
Kids == CASE Shape = 1 -> <<<<2, 3>>, <<4>>, <<>>, <<>>>>
          [] Shape = 2 -> <<<<3>>, <<4, 5>>, <<>>, <<>>, <<>>>>
          [] Shape = 3 -> <<<<>>, <<>>, <<>>, <<>>>>
          [] Shape = 4 -> <<<<2>>, <<3>>, <<4, 5>>, <<>>, <<>>>>
Roots == CASE Shape = 1 -> <<1>> [] Shape = 2 -> <<1, 2>> [] Shape = 3 -> <<1, 2, 3, 4>> [] Shape = 4 -> <<1>>
J == 1..Len(Kids)
Range(s) == {s[i] : i \in 1..Len(s)}
Parent(j) == IF \E p \in J : j \in Range(Kids[p]) THEN CHOOSE p \in J : j \in Range(Kids[p]) ELSE 0
T == 0..Workers          \* 0: the submitting thread
VARIABLES queue, deps, runs, dones, stack, sub
\* stack: per thread the jobs it is running, with the number of kids it has spawned; sub: roots submitted and joined
vars == <<queue, deps, runs, dones, stack, sub>>
Init == queue = <<>> /\ deps = [j \in J |-> 0] /\ runs = [j \in J |-> 0] /\ dones = [j \in J |-> 0]
        /\ stack = [t \in T |-> <<>>] /\ sub = [n |-> 0, joined |-> 0]
Full == Len(queue) >= Cap \/ Workers = 0
Put(t, j, stk) == IF Full THEN stack' = [stack EXCEPT ![t] = Append(stk, <<j, 0>>)] /\ runs' = [runs EXCEPT ![j] = @ + 1] /\ UNCHANGED queue
                  ELSE queue' = Append(queue, j) /\ stack' = [stack EXCEPT ![t] = stk] /\ UNCHANGED runs
Submit == /\ stack[0] = <<>> /\ sub.n < Len(Roots)
          /\ LET j == Roots[sub.n + 1] IN deps' = [deps EXCEPT ![j] = 1] /\ Put(0, j, <<>>)
          /\ sub' = [sub EXCEPT !.n = @ + 1] /\ UNCHANGED dones
Join == /\ stack[0] = <<>> /\ sub.n = Len(Roots) /\ sub.joined < sub.n /\ deps[Roots[sub.joined + 1]] = 0
        /\ sub' = [sub EXCEPT !.joined = @ + 1] /\ UNCHANGED <<queue, deps, runs, dones, stack>>
Take(t) == /\ t # 0 /\ stack[t] = <<>> /\ queue # <<>>
           /\ stack' = [stack EXCEPT ![t] = <<<<Head(queue), 0>>>>] /\ queue' = Tail(queue) /\ runs' = [runs EXCEPT ![Head(queue)] = @ + 1]
           /\ UNCHANGED <<deps, dones, sub>>
Top(t) == stack[t][Len(stack[t])]
Spawn(t) == /\ stack[t] # <<>>
            /\ LET j == Top(t)[1] IN LET i == Top(t)[2] IN
               /\ i < Len(Kids[j])
               /\ LET k == Kids[j][i + 1] IN
                  /\ deps' = [deps EXCEPT ![k] = 1, ![j] = @ + 1]
                  /\ Put(t, k, [stack[t] EXCEPT ![Len(stack[t])] = <<j, i + 1>>])
            /\ UNCHANGED <<dones, sub>>
RECURSIVE Up(_, _, _)
Up(j, d, o) == IF j = 0 THEN <<d, o>>
               ELSE LET d1 == [d EXCEPT ![j] = @ - 1] IN IF d1[j] > 0 THEN <<d1, o>> ELSE Up(Parent(j), d1, [o EXCEPT ![j] = @ + 1])
Finish(t) == /\ stack[t] # <<>> /\ Top(t)[2] = Len(Kids[Top(t)[1]])
             /\ LET u == Up(Top(t)[1], deps, dones) IN deps' = u[1] /\ dones' = u[2]
             /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<queue, runs, sub>>
Finished == sub.joined = Len(Roots)
Next == Submit \/ Join \/ (\E t \in T : Take(t) \/ Spawn(t) \/ Finish(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Submit) /\ WF_vars(Join) /\ \A t \in T : WF_vars(Take(t)) /\ WF_vars(Spawn(t)) /\ WF_vars(Finish(t))
RECURSIVE TreeOf(_)
TreeOf(j) == {j} \cup UNION {TreeOf(k) : k \in Range(Kids[j])}
Ended(j) == runs[j] = 1 /\ ~\E t \in T : \E i \in 1..Len(stack[t]) : stack[t][i][1] = j
OnceEach == \A j \in J : runs[j] <= 1 /\ dones[j] <= 1
DoneMeansDone == \A j \in J : dones[j] = 1 => \A k \in TreeOf(j) : Ended(k) /\ dones[k] = 1
JoinMeansDone == \A i \in 1..sub.joined : \A k \in TreeOf(Roots[i]) : Ended(k) /\ dones[k] = 1
AllRun == Finished => \A j \in J : runs[j] = 1 /\ dones[j] = 1 /\ queue = <<>>
Terminates == <>Finished
=============================================================================
