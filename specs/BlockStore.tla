----------------------------- MODULE BlockStore -----------------------------
(* A collection of fixed-size blocks in a file. A block is a number; its content is a sequence of cells. Nothing is promised
   about the content of a cell of a live block that was not written since the block was handed out (NONE). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NONE, CELLS
VARIABLES live,   \* function from the blocks in use to their cells
          free,   \* blocks handed back
          mode,   \* "w" open for writing, "r" for reading only, "closed"
          res
vars == <<live, free, mode, res>>
Known == DOMAIN live \cup free
Blank == [i \in 1..CELLS |-> NONE]
Overwrite(old, new) == [i \in 1..CELLS |-> IF i <= Len(new) THEN new[i] ELSE old[i]]
Set(f, x, y) == [z \in (DOMAIN f) \cup {x} |-> IF z = x THEN y ELSE f[z]]
Drop(f, x) == [z \in (DOMAIN f) \ {x} |-> f[z]]
Fits(content, r) == Len(r) = CELLS /\ \A i \in 1..CELLS : content[i] \in {NONE, r[i]}

Start == live' = [x \in {} |-> Blank] /\ free' = {} /\ mode' = "w" /\ res' = <<>>
(* A free block is used again before the file grows, and never one in use. *)
Alloc(b) ==
    /\ mode = "w" /\ (IF free # {} THEN b \in free ELSE b \notin Known)
    /\ live' = Set(live, b, Blank) /\ free' = free \ {b} /\ res' = <<b>> /\ UNCHANGED mode
Free(b) == mode = "w" /\ b \in DOMAIN live /\ live' = Drop(live, b) /\ free' = free \cup {b} /\ res' = <<>> /\ UNCHANGED mode
Write(b, c) == mode = "w" /\ b \in DOMAIN live /\ live' = Set(live, b, Overwrite(live[b], c)) /\ res' = <<>> /\ UNCHANGED <<free, mode>>
Read(b, r) == mode # "closed" /\ b \in DOMAIN live /\ Fits(live[b], r) /\ res' = r /\ UNCHANGED <<live, free, mode>>
Close == mode # "closed" /\ mode' = "closed" /\ res' = <<>> /\ UNCHANGED <<live, free>>
Open(m) == mode = "closed" /\ mode' = m /\ m # "closed" /\ res' = <<>> /\ UNCHANGED <<live, free>>
----------------------------------------------------------------------------
Disjoint == DOMAIN live \cap free = {}
=============================================================================
