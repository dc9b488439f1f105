---------------------------- MODULE MCOperators ----------------------------
\* Laws the meaning of the operators has to satisfy, on all short sequences.
EXTENDS Operators, FiniteSets
CONSTANTS MAXLEN, VALS
VARIABLES s, q, pc
Seqs == UNION {[1..n -> VALS] : n \in 0..MAXLEN}
Init == s \in Seqs /\ q \in Seqs /\ pc = 0
Next == pc = 0 /\ pc' = 1 /\ UNCHANGED <<s, q>>
Spec == Init /\ [][Next]_<<s, q, pc>>
L(x) == <<"lit", x>>
E2(op, a) == <<op, a>>
E3(op, a, b) == <<op, a, b>>
Count(x, v) == Cardinality({i \in DOMAIN x : x[i] = v})
SameItems(x, y) == Len(x) = Len(y) /\ \A v \in VALS : Count(x, v) = Count(y, v)
Ordered(x) == \A i \in 1..(Len(x) - 1) : x[i] <= x[i + 1]
Laws == pc = 1 =>
  LET so == Eval(E2("sort", L(s)))  re == Eval(E2("rev", L(s)))  un == Eval(E2("uniq", L(s)))  qo == Eval(E2("sort", L(q))) IN
  /\ Ordered(so) /\ SameItems(so, s)
  /\ Eval(E2("rev", L(re))) = s /\ Eval(E2("sort", L(re))) = so /\ Eval(E2("rev", L(so))) = Eval(E2("rsort", L(s)))
  /\ Eval(E2("uniq", L(un))) = un /\ {un[i] : i \in DOMAIN un} = {s[i] : i \in DOMAIN s} /\ \A i \in 1..(Len(un) - 1) : un[i] # un[i + 1]
  /\ Len(Eval(E2("uniq", L(so)))) = Cardinality({s[i] : i \in DOMAIN s})
  /\ SameItems(Eval(<<"ksort", L(s), 2>>), s) /\ Eval(<<"ksort", L(s), 1>>) = so
  /\ Eval(E3("omerge", L(so), L(qo))) = Eval(E2("sort", L(s \o q)))
  /\ Len(Eval(E3("omerge", L(s), L(q)))) = Len(s) + Len(q)
  /\ Eval(E3("omerge", L(<<>>), L(q))) = q
  /\ \A n \in 1..3 : /\ Eval(<<"sub", L(s), n, <<"in">>>>) = s
                     /\ Eval(<<"sub", L(s), Len(s) + n, <<"sort", <<"in">>>>>>) = so
                     /\ SameItems(Eval(<<"sub", L(s), n, <<"sort", <<"in">>>>>>), s)
                     /\ Len(Eval(<<"chunks", L(s), n>>)) = (Len(s) + n - 1) \div n
  /\ (Len(q) >= Len(s) => Len(Eval(E3("merge", L(s), L(q)))) = 2 * Len(s) /\ Len(Eval(E3("zip", L(s), L(q)))) = Len(s))
  /\ Eval(E3("map", E2("rev", L(s)), 3)) = Eval(E2("rev", E3("map", L(s), 3)))
  /\ Len(Eval(<<"join", L(s), 2, 3>>)) = 2 * Len(s) /\ Len(Eval(<<"both", L(s), 2>>)) = 2 * Len(s)
=============================================================================
