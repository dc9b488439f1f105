---------------------------- MODULE MCFileStream ----------------------------
(* Exhaustive checking of FileStream with small constants, and generation of operation sequences (hist). *)
EXTENDS FileStream, TLC, Json
CONSTANTS VALS, MAXLEN, DEPTH, UDMAX
VARIABLES hist

mcvars == <<vars, hist>>

H(s) == hist' = Append(hist, s)
S(n) == ToString(n)

Init ==
    /\ mode = "rw" /\ comp \in BOOLEAN /\ items = <<>> /\ off = 0 /\ pos = [s \in SLOTS |-> -1]
    /\ ud = <<>> /\ udmax \in {0, UDMAX} /\ named \in BOOLEAN /\ exists = named /\ res = Ok(<<>>)
    /\ hist = <<IF comp THEN "comp 1" ELSE "comp 0", "named " \o (IF named THEN "1" ELSE "0"), "udmax " \o S(udmax)>>

Next ==
    \/ Read /\ H("read")
    \/ Peek /\ H("peek")
    \/ Skip /\ H("skip")
    \/ ReadBack /\ H("readback")
    \/ SkipBack /\ H("skipback")
    \/ \E n \in 0..3 : ReadArray(n) /\ H("reada " \o S(n))
    \/ \E v \in VALS : Len(items) < MAXLEN /\ Write(v) /\ H("write " \o S(v))
    \/ \E v \in VALS : Len(items) < MAXLEN - 2 /\ WriteArray(<<v, v + 1, v>>) /\ H("writea " \o S(v) \o " " \o S(v + 1) \o " " \o S(v))
    \/ \E n \in -2..2, w \in {"beg", "end", "cur"} : Seek(n, w) /\ H("seek " \o S(n) \o " " \o w)
    \/ \E s \in SLOTS : GetPos(s) /\ H("getpos " \o S(s))
    \/ \E s \in SLOTS : SetPos(s) /\ H("setpos " \o S(s))
    \/ SetPosEnd /\ H("setend")
    \/ \E n \in 0..(MAXLEN - 1) : Truncate(n) /\ H("trunc " \o S(n))
    \/ \E s \in SLOTS : TruncatePos(s) /\ H("truncpos " \o S(s))
    \/ \E d \in {<<>>, <<7>>, <<8, 9>>} : WriteUserData(d) /\ H("wud" \o (IF Len(d) > 0 THEN " " \o S(d[1]) ELSE "") \o (IF Len(d) > 1 THEN " " \o S(d[2]) ELSE ""))
    \/ ReadUserData /\ H("rud")
    \/ Close /\ H("close")
    \/ named /\ \E m \in {"rw", "ro", "wo"}, u \in {0, UDMAX}, c \in BOOLEAN :
          Open(m, u, c) /\ H("open " \o m \o " " \o S(u) \o (IF c THEN " 1" ELSE " 0"))
    \/ OtherProcessReads /\ H("xread")

Spec == Init /\ [][Next]_mcvars

\* exhaustive checking: hist is kept out of the fingerprint and bounded
View == <<mode, comp, items, off, pos, ud, udmax, named, exists>>
Bound == Len(items) <= MAXLEN

\* generation: print each behaviour when it is long enough
Emit == Len(hist) # DEPTH \/ PrintT("VGEN " \o ToJson(hist))
=============================================================================
