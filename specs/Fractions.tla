----------------------------- MODULE Fractions -----------------------------
(* The database of recorded fractions: how much of the time of the work around it a part took, and for how large an input
   that was seen. Of two records of a part that of the larger input counts, the later one if they are equal. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES db,      \* name -> [f, n], for the names recorded
          file,    \* file -> names recorded there, as db; the absent file has none
          there,   \* files that exist
          fresh    \* recorded something that was not loaded
vars == <<db, file, there, fresh>>
Put(d, x, f, n) == IF x \in DOMAIN d /\ d[x].n > n THEN d
                   ELSE [y \in DOMAIN d \cup {x} |-> IF y = x THEN [f |-> f, n |-> n] ELSE d[y]]
Update(x, f, n) == db' = Put(db, x, f, n) /\ fresh' = (fresh \/ db' # db) /\ UNCHANGED <<file, there>>
Merge(d, e) == [y \in DOMAIN d \cup DOMAIN e |->
                  IF y \notin DOMAIN e THEN d[y] ELSE IF y \in DOMAIN d /\ d[y].n > e[y].n THEN d[y] ELSE e[y]]
Load(p) == /\ db' = Merge(db, file[p]) /\ UNCHANGED <<file, there, fresh>>
\* what was recorded since is never lost; without anything new the file may stay as it is
Written(p) == file' = [file EXCEPT ![p] = db] /\ there' = there \cup {p}
Save(p, force) == /\ Written(p) \/ (~force /\ ~fresh /\ UNCHANGED <<file, there>>)
                  /\ UNCHANGED <<db, fresh>>
Restart == db' = <<>> /\ fresh' = FALSE /\ UNCHANGED <<file, there>>
\* parts measured while they ran: xs names, ns input sizes, d the database afterwards; parts without input are not recorded
RECURSIVE SumF(_, _)
SumF(S, d) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN d[x].f + SumF(S \ {x}, d)
Run(xs, ns, d) ==
  LET all == {xs[i] : i \in {j \in 1..Len(xs) : ns[j] > 0}}
      N(x) == ns[CHOOSE i \in 1..Len(xs) : xs[i] = x]
      Took == {x \in all : ~(x \in DOMAIN db /\ db[x].n > N(x))} IN
  /\ db' = d
  /\ \/ d = db   \* it took no time
     \/ /\ DOMAIN d = DOMAIN db \cup Took
        /\ \A x \in DOMAIN d : IF x \in Took THEN d[x].n = N(x) /\ 0 <= d[x].f /\ d[x].f <= 64 ELSE d[x] = db[x]
        /\ Took = all => LET s == SumF(all, d) IN s <= 64 + Cardinality(all) /\ s >= 64 - Cardinality(all)
        /\ SumF(Took, d) <= 64 + Cardinality(all)
  /\ fresh' = (fresh \/ d # db) /\ UNCHANGED <<file, there>>
Init == db = <<>> /\ file = [p \in {1, 2} |-> <<>>] /\ there = {} /\ fresh = FALSE
\* ---- the size of the input behind a record never shrinks while the database lives
Grow == \A x \in DOMAIN db : x \in DOMAIN db' /\ db'[x].n >= db[x].n
=============================================================================
