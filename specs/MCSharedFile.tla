---------------------------- MODULE MCSharedFile ----------------------------
EXTENDS SharedFile, TLC, Json
CONSTANTS VALS, MAXLEN, DEPTH, UDMAX
VARIABLES hist
H(x) == hist' = Append(hist, x)
S(n) == ToString(n)
Init ==
    /\ mode = "rw" /\ plain \in BOOLEAN /\ items = <<>> /\ cur = [s \in STREAMS |-> IF plain /\ s = First THEN 0 ELSE -1]
    /\ ud = <<>> /\ udmax \in {0, UDMAX} /\ named \in BOOLEAN /\ exists = named /\ res = Ok(<<>>)
    /\ hist = <<"plain " \o (IF plain THEN "1" ELSE "0"), "named " \o (IF named THEN "1" ELSE "0"), "udmax " \o S(udmax)>>
Next ==
    \/ \E s \in STREAMS :
        \/ Attach(s, 0) /\ cur[s] = -1 /\ H("attach " \o S(s) \o " 0")
        \/ cur[s] = -1 /\ \E o \in 1..MAXLEN : o <= Len(items) + 1 /\ Attach(s, o) /\ H("attach " \o S(s) \o " " \o S(o))
        \/ Detach(s) /\ H("detach " \o S(s))
        \/ Read(s) /\ H("read " \o S(s))
        \/ Peek(s) /\ plain /\ H("peek " \o S(s))
        \/ ReadBack(s) /\ H("readback " \o S(s))
        \/ Skip(s) /\ plain /\ H("skip " \o S(s))
        \/ SkipBack(s) /\ plain /\ H("skipback " \o S(s))
        \/ \E n \in 0..3 : ReadArray(s, n) /\ H("reada " \o S(s) \o " " \o S(n))
        \/ \E v \in VALS : Len(items) < MAXLEN /\ WriteArray(s, <<v>>) /\ H("write " \o S(s) \o " " \o S(v))
        \/ \E v \in VALS : Len(items) < MAXLEN - 2 /\ WriteArray(s, <<v, v + 1, v>>) /\ H("writea " \o S(s) \o " " \o S(v) \o " " \o S(v + 1) \o " " \o S(v))
        \/ \E n \in -2..2, w \in {"beg", "end", "cur"} : Live(s) /\ SeekFrom(s, n, w) /\ H("seek " \o S(s) \o " " \o S(n) \o " " \o w)
    \/ \E n \in 0..MAXLEN : n <= Len(items) + 2 /\ (plain \/ \A s \in STREAMS : cur[s] = -1) /\ Truncate(n) /\ H("trunc " \o S(n))
    \/ \E d \in {<<>>, <<7>>, <<8, 9>>} : WriteUserData(d) /\ H("wud" \o (IF Len(d) > 0 THEN " " \o S(d[1]) ELSE "") \o (IF Len(d) > 1 THEN " " \o S(d[2]) ELSE ""))
    \/ ReadUserData /\ H("rud")
    \/ Close /\ H("close")
    \/ named /\ \E m \in {"rw", "ro", "wo"}, u \in {0, UDMAX} : Open(m, u) /\ H("open " \o m \o " " \o S(u))
Spec == Init /\ [][Next]_<<vars, hist>>
View == <<mode, plain, items, cur, ud, udmax, named, exists>>
Bound == Len(items) <= MAXLEN
Emit == Len(hist) # DEPTH \/ PrintT("VGEN " \o ToJson(hist))
=============================================================================
