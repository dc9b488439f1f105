-------------------------- MODULE BlockCacheDesign --------------------------
(* How the blocks are kept: a stack of free blocks and the end of the file (both saved on closing), and in front of the file
   a cache of at most CACHE blocks, the least recently used of which makes room, written back if it was changed.
   It must refine BlockStore. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NONE, CELLS, CACHE, MAXB, VALS
VARIABLES end, fstack, lru, mem, dirty, disk, inuse, mode, res
vars == <<end, fstack, lru, mem, dirty, disk, inuse, mode, res>>
Blank == [i \in 1..CELLS |-> NONE]
Range(s) == {s[i] : i \in 1..Len(s)}
Set(f, x, y) == [z \in (DOMAIN f) \cup {x} |-> IF z = x THEN y ELSE f[z]]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Init == end = 0 /\ fstack = <<>> /\ lru = <<>> /\ mem = [x \in {} |-> Blank] /\ dirty = {} /\ disk = [x \in {} |-> Blank]
        /\ inuse = {} /\ mode = "w" /\ res = <<>>
(* Room for b, with content c: lru, mem, dirty and disk afterwards. *)
Admit(b, c, d) ==
    LET full == Len(lru) >= CACHE v == lru[1]
        l2 == IF full THEN Tail(lru) ELSE lru
        m2 == IF full THEN [z \in (DOMAIN mem) \ {v} |-> mem[z]] ELSE mem
    IN /\ disk' = (IF full /\ v \in dirty THEN Set(disk, v, mem[v]) ELSE disk)
       /\ lru' = Append(l2, b) /\ mem' = Set(m2, b, c)
       /\ dirty' = ((IF full THEN dirty \ {v} ELSE dirty) \cup (IF d THEN {b} ELSE {}))
Alloc ==
    /\ mode = "w"
    /\ (IF fstack # <<>> THEN res' = <<fstack[Len(fstack)]>> /\ fstack' = SubSeq(fstack, 1, Len(fstack) - 1) /\ end' = end
        ELSE end < MAXB /\ res' = <<end>> /\ end' = end + 1 /\ fstack' = fstack)
    /\ inuse' = inuse \cup {res'[1]} /\ Admit(res'[1], Blank, TRUE) /\ UNCHANGED mode
Free(b) ==
    /\ mode = "w" /\ b \in inuse /\ inuse' = inuse \ {b} /\ fstack' = Append(fstack, b)
    /\ lru' = Without(lru, b) /\ mem' = [z \in (DOMAIN mem) \ {b} |-> mem[z]] /\ dirty' = dirty \ {b}
    /\ res' = <<>> /\ UNCHANGED <<end, disk, mode>>
(* Reading brings the block in and makes it the most recently used one. *)
Touch(b, c, d) ==
    IF b \in DOMAIN mem
    THEN lru' = Append(Without(lru, b), b) /\ mem' = Set(mem, b, c) /\ dirty' = (IF d THEN dirty \cup {b} ELSE dirty) /\ disk' = disk
    ELSE Admit(b, c, d)
Now(b) == IF b \in DOMAIN mem THEN mem[b] ELSE disk[b]
Write(b, c) ==
    /\ mode = "w" /\ b \in inuse /\ Touch(b, [i \in 1..CELLS |-> IF i <= Len(c) THEN c[i] ELSE Now(b)[i]], TRUE)
    /\ res' = <<>> /\ UNCHANGED <<end, fstack, inuse, mode>>
Read(b) == mode # "closed" /\ b \in inuse /\ Touch(b, Now(b), FALSE) /\ res' = Now(b) /\ UNCHANGED <<end, fstack, inuse, mode>>
Close ==
    /\ mode # "closed" /\ mode' = "closed" /\ lru' = <<>> /\ mem' = [x \in {} |-> Blank] /\ dirty' = {} /\ res' = <<>>
    /\ disk' = [z \in (DOMAIN disk) \cup dirty |-> IF z \in dirty THEN mem[z] ELSE disk[z]] /\ UNCHANGED <<end, fstack, inuse>>
Open(m) == mode = "closed" /\ mode' = m /\ res' = <<>> /\ UNCHANGED <<end, fstack, lru, mem, dirty, disk, inuse>>
Next == Alloc \/ Close \/ Open("r") \/ Open("w") \/ \E b \in inuse : Free(b) \/ Read(b) \/ \E n \in 1..CELLS, v \in VALS : Write(b, [i \in 1..n |-> v])
Spec == Init /\ [][Next]_vars
Content == [b \in inuse |-> Now(b)]
\* A cell of which nothing is promised may come back as anything; the design returns NONE for it.
A == INSTANCE BlockStore WITH live <- [b \in inuse |-> Now(b)], free <- Range(fstack)
AbsInit == inuse = {} /\ Range(fstack) = {} /\ mode = "w"
AbsNext == \/ (\E b \in 0..MAXB : A!Alloc(b) \/ A!Free(b) \/ A!Read(b, res') \/ \E n \in 1..CELLS, v \in VALS : A!Write(b, [i \in 1..n |-> v]))
           \/ A!Close \/ A!Open("r") \/ A!Open("w")
Refines == AbsInit /\ [][AbsNext]_<<inuse, lru, mem, disk, fstack, mode, res>>
InBounds == Len(lru) <= CACHE /\ Range(lru) = DOMAIN mem /\ dirty \subseteq DOMAIN mem /\ Range(fstack) \cap inuse = {}
            /\ \A b \in inuse : b \in DOMAIN mem \/ b \in DOMAIN disk
=============================================================================
