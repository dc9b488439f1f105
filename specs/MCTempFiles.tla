----------------------------- MODULE MCTempFiles -----------------------------
(* TempFiles at small scope: all histories of handles, files and shutdowns. *)
EXTENDS TempFiles
CONSTANTS MaxObj, MaxPath, MaxStep
VARIABLES hurt,   \* paths that were removed from outside, by a shutdown or through another object of the same name
          step
SmallSlots == 1..3
Users == {1}
Sizes == {1, 2}
mvars == <<vars, hurt, step>>
MCInit == h = [s \in Slots |-> 0] /\ obj = <<>> /\ disk = {} /\ gen = {} /\ kept = 0 /\ hurt = {} /\ step = 0
PathsOf(S) == {obj[x].path : x \in S} \ {0}
Handles == \/ \E s \in Slots : Drop(s) \/ (h[s] # 0 /\ \E p \in BOOLEAN : Persist(s, p))
           \/ \E s, q \in Slots : h[s] # 0 /\ (Copy(s, q) \/ (s # q /\ Move(s, q)))
           \/ \E s \in Slots : Len(obj) < MaxObj /\ (Make(s) \/ \E u \in Users, p \in BOOLEAN : Name(s, u, p))
           \/ DropAll
\* a user's name dropped through one object is gone for the others
Gone == (disk \ disk') \cap {obj[x].path : x \in {y \in Live(h') : y \in DOMAIN obj}}
MCNext == /\ step < MaxStep /\ step' = step + 1
          /\ \/ Handles /\ hurt' = hurt \cup (Gone \cap Users)
             \/ \E s \in Slots, p \in (Users \cup 2..MaxPath) : Path(s, p, p \notin Users) /\ UNCHANGED hurt
             \/ \E s \in Slots, p \in 1..MaxPath, r \in Sizes : Use(s, p, r) /\ hurt' = hurt \ {p}
             \/ \E p \in disk : Lost(p) /\ hurt' = hurt \cup {p}
             \/ \E p \in Users : Store(p) /\ hurt' = hurt \ {p}
             \/ Finish /\ hurt' = hurt \cup gen
MCSpec == MCInit /\ [][MCNext]_mvars
\* what somebody holds and has used is there
Held == \A x \in Live(h) : obj[x].rec > 0 => obj[x].path \in disk \cup hurt
\* what nobody holds is gone, unless it was to stay
Swept == \A p \in gen \cap disk : \/ \E x \in Live(h) : obj[x].path = p
                                  \/ \E x \in 1..Len(obj) : obj[x].path = p /\ obj[x].persist
\* nothing held: only what was made persistent counts
Counted == /\ Usage(h, obj, kept) >= 0
           /\ (Live(h) = {} => Usage(h, obj, kept) = kept)
           /\ ((\A x \in 1..Len(obj) : ~obj[x].persist) /\ Live(h) = {} => kept = 0)
Once == \A x, y \in 1..Len(obj) : x # y /\ obj[x].path \in gen => obj[x].path # obj[y].path
UserFiles == [][\A p \in Users : p \in disk /\ p \notin disk' =>
                  \/ p \notin PathsOf(Live(h)) /\ \E q \in disk : disk' = disk \ {q}       \* removed from outside
                  \/ \E x \in Live(h) : obj[x].path = p /\ (~obj[x].persist \/ \E q \in disk : disk' = disk \ {q})]_mvars
=============================================================================
