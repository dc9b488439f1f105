---------------------------- MODULE FaultyBlocks ----------------------------
(* A collection of blocks, each holding one value, in a file the operating system fails to read or write at times.

   An operation raises an error exactly when a call it made failed, and then it changes nothing, except that a block a direct
   write failed for holds no particular value (NONE), and that a block being freed may be free already.  Behind a cache not
   even that: a block in the cache that cannot be written stays in the cache. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NONE
VARIABLES cached, live, free, res
vars == <<cached, live, free, res>>
Set(f, x, y) == [z \in (DOMAIN f) \cup {x} |-> IF z = x THEN y ELSE f[z]]
Drop(f, x) == [z \in (DOMAIN f) \ {x} |-> f[z]]
Ok(r) == [x |-> "", r |-> r]
Err(x) == [x |-> x, r |-> <<>>]
Start(c) == cached' = c /\ live' = [x \in {} |-> NONE] /\ free' = {} /\ res' = Ok(<<>>)
Alloc(b) == /\ (IF free # {} THEN b \in free ELSE b \notin DOMAIN live)
            /\ live' = Set(live, b, NONE) /\ free' = free \ {b} /\ res' = Ok(<<b>>) /\ UNCHANGED cached
Free(b) == b \in DOMAIN live /\ live' = Drop(live, b) /\ free' = free \cup {b} /\ res' = Ok(<<>>) /\ UNCHANGED cached
Write(b, v) == b \in DOMAIN live /\ live' = Set(live, b, v) /\ res' = Ok(<<>>) /\ UNCHANGED <<cached, free>>
Read(b, v) == b \in DOMAIN live /\ live[b] \in {NONE, v} /\ res' = Ok(<<v>>) /\ UNCHANGED <<cached, live, free>>
Fails(o, b, x) ==
    /\ res' = Err(x) /\ UNCHANGED cached
    /\ CASE o = "bwrite" /\ ~cached -> live' = Set(live, b, NONE) /\ UNCHANGED free
         [] o = "free" -> Free(b) \/ UNCHANGED <<live, free>>
         [] OTHER -> UNCHANGED <<live, free>>
Reopen == UNCHANGED vars
=============================================================================
