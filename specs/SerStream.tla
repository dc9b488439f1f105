------------------------------ MODULE SerStream ------------------------------
(* Serialization streams: per direction one writer and one reader object, used on a few files.
   A file is a sequence of objects [id, b] where b is its size in bytes. *)
EXTENDS Integers, Sequences
CONSTANTS FILES, DIRS   \* DIRS = {0, 1}: 0 forward, 1 reverse
VARIABLES file,  \* f -> [st, dir, objs]; st: "none", "dirty", "clean", "junk"
          wr,    \* d -> file the writer has open, or -1
          rd,    \* d -> [f, i, cut]: file the reader has open (or -1), objects read so far, bytes read of a failed object
          res
vars == <<file, wr, rd, res>>
Ok(r) == [x |-> "", r |-> r]
Fail(k) == [x |-> k, r |-> <<>>]

None == [st |-> "none", dir |-> 0, objs |-> <<>>, tot |-> 0]
Idle == [f |-> -1, i |-> 0, off |-> 0]
Start == /\ file' = [f \in FILES |-> None] /\ wr' = [d \in DIRS |-> -1] /\ rd' = [d \in DIRS |-> Idle] /\ res' = Ok(<<>>)

Busy(f) == \E d \in DIRS : wr[d] = f \/ rd[d].f = f

Total(f) == file[f].tot

(* What the i-th object read is. *)
Nth(f, d, i) == LET s == file[f].objs IN IF d = 0 THEN s[i] ELSE s[Len(s) + 1 - i]
(* Opening a writer that is still open closes what it had open before. *)
Closed(fs, d) == IF wr[d] = -1 THEN fs ELSE [fs EXCEPT ![wr[d]].st = "clean"]
OpenWriter(d, f) ==
    /\ wr[d] # f /\ ~Busy(f)
    /\ file' = [Closed(file, d) EXCEPT ![f] = [st |-> "dirty", dir |-> d, objs |-> <<>>, tot |-> 0]]
    /\ wr' = [wr EXCEPT ![d] = f] /\ res' = Ok(<<>>) /\ UNCHANGED rd
Ser(d, o) ==
    /\ wr[d] # -1
    /\ file' = [file EXCEPT ![wr[d]].objs = Append(@, o), ![wr[d]].tot = @ + o.b]
    /\ res' = Ok(<<>>) /\ UNCHANGED <<wr, rd>>
CloseWriter(d) ==
    /\ file' = Closed(file, d) /\ wr' = [wr EXCEPT ![d] = -1] /\ res' = Ok(<<>>) /\ UNCHANGED rd

Good(d, f) == file[f].st = "clean" /\ file[f].dir = d
OpenReader(d, f) ==
    /\ \A e \in DIRS : wr[e] # f \/ TRUE
    /\ IF Good(d, f)
       THEN res' = Ok(<<>>) /\ rd' = [rd EXCEPT ![d] = [f |-> f, i |-> 0, off |-> 0]]
       ELSE res' = Fail("refused") /\ rd' = [rd EXCEPT ![d] = Idle]
    /\ UNCHANGED <<file, wr>>
Reading(d) == rd[d].f # -1
Unser(d) ==
    /\ Reading(d)
    /\ IF rd[d].i < Len(file[rd[d].f].objs)
       THEN res' = Ok(<<Nth(rd[d].f, d, rd[d].i + 1).id>>) /\ rd' = [rd EXCEPT ![d].i = @ + 1, ![d].off = @ + Nth(rd[d].f, d, rd[d].i + 1).b]
       ELSE res' = Fail("eos") /\ UNCHANGED rd
    /\ UNCHANGED <<file, wr>>
CloseReader(d) == rd' = [rd EXCEPT ![d] = Idle] /\ res' = Ok(<<>>) /\ UNCHANGED <<file, wr>>

(* Damage done to a closed file from outside. *)
Damage(f) == ~Busy(f) /\ file' = [file EXCEPT ![f].st = "junk"] /\ res' = Ok(<<>>) /\ UNCHANGED <<wr, rd>>

OpenCount == Len(SelectSeq([i \in 1..4 |-> CASE i = 1 -> wr[0] # -1 [] i = 2 -> wr[1] # -1 [] i = 3 -> rd[0].f # -1 [] i = 4 -> rd[1].f # -1], LAMBDA b : b))
Offset(d) == IF Reading(d) THEN rd[d].off ELSE 0
CanRead(d) == Reading(d) /\ rd[d].off < Total(rd[d].f)   \* an object may have no bytes at all
----------------------------------------------------------------------------
TypeOK == /\ \A d \in DIRS : wr[d] # -1 => file[wr[d]].st = "dirty" /\ file[wr[d]].dir = d
          /\ \A d \in DIRS : Reading(d) => rd[d].i <= Len(file[rd[d].f].objs)
ReadsOnlyClean == \A d \in DIRS : Reading(d) => Good(d, rd[d].f)
AllRead == \A d \in DIRS : Reading(d) => (CanRead(d) <=> \E i \in (rd[d].i + 1)..Len(file[rd[d].f].objs) : Nth(rd[d].f, d, i).b > 0)
=============================================================================
