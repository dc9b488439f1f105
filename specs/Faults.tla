------------------------------- MODULE Faults -------------------------------
(* What an object that keeps its items in a file owes its user when the operating system fails some of the calls it makes.

   A failed call may be noticed by the operation that made it or, where a background thread does the work, later; until
   somebody was told it is pending.  pr counts pending failures to read, pw pending failures to write.  An operation may raise
   an error only if one is pending, and reports all of them.  A failure to read changes no item.  A failure to write either
   leaves everything as it was, to be tried again, or it damages the object: from then on its items are anyone's guess, but it
   never again passes for a whole file.  An object that is not damaged answers exactly as if nothing had ever failed, and
   closing it does not succeed while a lost write is pending. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind,    \* "fs0".."fs2", "us", "file", "stack", "queue", "ser", "rser"
          mode,    \* "closed", "rw", "ro", "wo"
          items, off,
          damaged, \* a lost write was reported
          pr, pw,
          res
vars == <<kind, mode, items, off, damaged, pr, pw, res>>
Cursor == kind \in {"fs0", "fs1", "fs2", "us", "file"}
Ok(r) == [x |-> "", r |-> r]
Err == {"io", "full"}
Start(k) == kind' = k /\ mode' = "closed" /\ items' = <<>> /\ off' = 0 /\ damaged' = FALSE /\ pr' = 0 /\ pw' = 0 /\ res' = Ok(<<>>)

(* dr and dw: failures that happened while the operation ran. *)
Fine(dr, dw) == pr' = pr + dr /\ pw' = pw + dw /\ UNCHANGED <<kind, damaged>>

Put(s, o, v) == IF o = Len(s) THEN Append(s, v) ELSE [s EXCEPT ![o + 1] = v]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

Open(m, dr, dw) ==
    /\ mode = "closed" /\ mode' = m /\ res' = Ok(<<>>)
    /\ IF m = "wo"
       THEN /\ items' = <<>> /\ off' = 0 /\ damaged' = FALSE /\ pr' = dr /\ pw' = dw /\ UNCHANGED kind
       ELSE /\ ~damaged /\ UNCHANGED items /\ Fine(dr, dw)
            /\ off' = IF kind = "stack" THEN Len(items) ELSE 0
Close(dr, dw) ==
    /\ mode # "closed" /\ pw = 0 /\ dw = 0
    /\ mode' = "closed" /\ off' = 0 /\ res' = Ok(<<>>) /\ UNCHANGED items /\ Fine(dr, dw)
Write(v, dr, dw) ==
    /\ mode \in {"rw", "wo"} /\ res' = Ok(<<>>)
    /\ IF Cursor THEN items' = Put(items, off, v) /\ off' = off + 1
       ELSE IF kind = "queue" THEN items' = Append(items, v) /\ UNCHANGED off
       ELSE IF kind = "stack" THEN items' = Append(items, v) /\ off' = off + 1
       ELSE items' = (IF kind = "rser" THEN <<v>> \o items ELSE Append(items, v)) /\ UNCHANGED off
    /\ UNCHANGED mode /\ Fine(dr, dw)
Read(dr, dw) ==
    /\ mode \in {"rw", "ro"}
    /\ IF kind = "stack"
       THEN Len(items) > 0 /\ res' = Ok(<<Last(items)>>) /\ items' = Front(items) /\ off' = off - 1
       ELSE IF kind = "queue"
       THEN Len(items) > 0 /\ res' = Ok(<<Head(items)>>) /\ items' = Tail(items) /\ UNCHANGED off
       ELSE UNCHANGED items /\ (IF off < Len(items) THEN res' = Ok(<<items[off + 1]>>) /\ off' = off + 1
                                ELSE res' = [x |-> "eos", r |-> <<>>] /\ UNCHANGED off)
    /\ UNCHANGED mode /\ Fine(dr, dw)
ReadBack(dr, dw) ==
    /\ mode \in {"rw", "ro"} /\ Cursor /\ off > 0 /\ res' = Ok(<<items[off]>>) /\ off' = off - 1
    /\ UNCHANGED <<items, mode>> /\ Fine(dr, dw)
Seek(n, dr, dw) == mode # "closed" /\ Cursor /\ n \in 0..Len(items) /\ off' = n /\ res' = Ok(<<>>) /\ UNCHANGED <<items, mode>> /\ Fine(dr, dw)
Min(a, b) == IF a < b THEN a ELSE b
Trunc(n, dr, dw) ==
    /\ mode \in {"rw", "wo"} /\ n \in 0..Len(items)
    /\ items' = SubSeq(items, 1, n) /\ off' = Min(off, n) /\ res' = Ok(<<>>) /\ UNCHANGED mode /\ Fine(dr, dw)

(* An operation that raises an error because a call failed.  It may also close the object.  `after` is the content the
   operation would have left. *)
Fails(x, stays, o, after, dr, dw) ==
    /\ x \in Err /\ pr + pw + dr + dw > 0 /\ ~damaged
    /\ damaged' \in (IF pw + dw > 0 THEN BOOLEAN ELSE {FALSE})
    /\ pr' = 0 /\ pw' = 0
    /\ mode' = (IF stays THEN mode ELSE "closed") /\ off' = (IF stays THEN o ELSE 0)
    /\ items' \in {items, after} /\ (stays /\ ~damaged' => o \in 0..Len(items'))
    /\ res' = [x |-> x, r |-> <<>>] /\ UNCHANGED kind
(* Opening fails: nothing is open. *)
OpenFails(x, m, dr, dw) ==
    /\ mode = "closed"
    /\ (damaged /\ m # "wo") \/ (x \in Err /\ pr + pw + dr + dw > 0)
    \* the file is as it was, or it is refused from now on
    /\ damaged' \in (IF damaged \/ pw > 0 THEN {TRUE} ELSE IF m = "wo" \/ dw > 0 THEN BOOLEAN ELSE {FALSE}) /\ pr' = 0 /\ pw' = 0
    /\ res' = [x |-> x, r |-> <<>>] /\ UNCHANGED <<kind, mode, items, off>>
(* Whatever else happens to a damaged object. *)
Guess(x, r, stays, o) ==
    /\ damaged /\ mode' = (IF stays THEN mode ELSE "closed") /\ off' = o /\ pr' = 0 /\ pw' = 0
    /\ res' = [x |-> x, r |-> r] /\ UNCHANGED <<kind, items, damaged>>
(* The object goes away without a close; a failure nobody was told about is kept in the file. *)
Dropped == /\ mode' = "closed" /\ off' = 0 /\ damaged' = (damaged \/ pw > 0) /\ pr' = 0 /\ pw' = 0
           /\ res' = Ok(<<>>) /\ UNCHANGED <<kind, items>>
=============================================================================
