---------------------------- MODULE MCFractions ----------------------------
EXTENDS Fractions, TLC
CONSTANTS Names, Fs, Ns
MCNext == \/ \E x \in Names, f \in Fs, n \in Ns : Update(x, f, n)
          \/ \E p \in {1, 2} : Load(p) \/ Save(p, TRUE) \/ Save(p, FALSE)
          \/ Restart
MCSpec == Init /\ [][MCNext]_vars
\* loading is a join: again or in the other order changes nothing that matters
Best(d, x) == IF x \in DOMAIN d THEN d[x].n ELSE -1
Join == \A x \in Names : /\ Best(Merge(Merge(db, file[1]), file[2]), x) = Best(Merge(Merge(db, file[2]), file[1]), x)
                         /\ Merge(Merge(db, file[1]), file[1]) = Merge(db, file[1])
Kept == [][Grow \/ Restart]_vars
NoLoss == [][\A p \in {1, 2} : (Save(p, FALSE) /\ fresh) => file'[p] = db]_vars
=============================================================================
