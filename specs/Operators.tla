------------------------------ MODULE Operators ------------------------------
\* What the pipelining operators compute. An expression is a sequence whose first element names the operator; a pipeline describes, for every place
\* where items come out of it, the expression of the stages before it. Items are numbers below 2^16.
EXTENDS Integers, Sequences, SequencesExt, TLC
Mod == 1009
LOCAL Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
LOCAL Img(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Uniq(s) == FoldLeft(LAMBDA o, x : IF o # <<>> /\ o[Len(o)] = x THEN o ELSE Append(o, x), <<>>, s)
MapOf(x, k) == (x * k + 7) % Mod
Chunk(s, n) == LET Size == (Len(s) + n - 1) \div n
                   H(i) == LET lo == (i - 1) * n + 1  hi == IF i * n < Len(s) THEN i * n ELSE Len(s) IN FoldLeft(LAMBDA a, x : (a * 3 + x) % Mod, 0, SubSeq(s, lo, hi))
               IN [i \in 1..Size |-> H(i)]
\* every item of s, after the items of q that are smaller up to the first that is not; the rest of q at the end
RECURSIVE Skip(_, _, _)
Skip(q, u, x) == IF u < Len(q) /\ q[u + 1] < x THEN Skip(q, u + 1, x) ELSE u
OMerge(s, q) == LET Step(p, x) == LET m == Skip(q, p[2], x) IN <<p[1] \o SubSeq(q, p[2] + 1, m) \o <<x>>, m>>
                    e == FoldLeft(Step, <<<<>>, 0>>, s)
                IN e[1] \o SubSeq(q, e[2] + 1, Len(q))
Twice(s, F(_), G(_)) == [i \in 1..(2 * Len(s)) |-> IF i % 2 = 1 THEN F(s[(i + 1) \div 2]) ELSE G(s[i \div 2])]
RECURSIVE Ev(_, _)
Val(e, in) == Ev(e, in) \o <<>>          \* as TLC evaluates functions lazily
Ev(e, in) ==
  CASE e[1] = "lit" -> e[2]
    [] e[1] = "range" -> IF e[2] >= e[3] THEN <<>> ELSE [i \in 1..((e[3] - e[2] + e[4] - 1) \div e[4]) |-> e[2] + (i - 1) * e[4]]
    [] e[1] = "map" -> LET s == Val(e[2], in) IN Img(s, LAMBDA x : MapOf(x, e[3]))
    [] e[1] = "lin" -> LET s == Val(e[2], in) IN Img(s, LAMBDA x : x * e[3] + e[4])
    [] e[1] = "filter" -> LET s == Val(e[2], in) IN SelectSeq(s, LAMBDA x : x % e[3] # e[4])
    [] e[1] = "uniq" -> LET s == Val(e[2], in) IN Uniq(s)
    [] e[1] = "sort" -> LET s == Val(e[2], in) IN SortSeq(s, LAMBDA a, b : a < b)
    [] e[1] = "rsort" -> LET s == Val(e[2], in) IN SortSeq(s, LAMBDA a, b : a > b)
    [] e[1] = "ksort" -> LET s == Val(e[2], in) IN SortSeq(s, LAMBDA a, b : IF a % e[3] # b % e[3] THEN a % e[3] < b % e[3] ELSE a < b)
    [] e[1] = "rev" -> LET s == Val(e[2], in) IN Rev(s)
    [] e[1] = "chunks" -> LET s == Val(e[2], in) IN Chunk(s, e[3])
    [] e[1] = "merge" -> LET s == Val(e[2], in)  q == Val(e[3], in) IN [i \in 1..(2 * Len(s)) |-> IF i % 2 = 1 THEN s[(i + 1) \div 2] ELSE q[i \div 2]]
    [] e[1] = "omerge" -> LET s == Val(e[2], in)  q == Val(e[3], in) IN OMerge(s, q)
    [] e[1] = "zip" -> LET s == Val(e[2], in)  q == Val(e[3], in) IN [i \in 1..Len(s) |-> (s[i] * 31 + q[i]) % Mod]
    [] e[1] = "fst" -> LET s == Val(e[2], in) IN Img(s, LAMBDA x : x \div 7)
    [] e[1] = "snd" -> LET s == Val(e[2], in) IN Img(s, LAMBDA x : x % 7)
    [] e[1] = "join" -> LET s == Val(e[2], in) IN Twice(s, LAMBDA x : MapOf(x, e[3]), LAMBDA x : MapOf(MapOf(x, e[3]), e[4]))
    [] e[1] = "both" -> LET s == Val(e[2], in) IN Twice(s, LAMBDA x : MapOf(x, e[3]), LAMBDA x : x)
    [] e[1] = "in" -> in
    [] e[1] = "sub" -> LET s == Val(e[2], in)                        \* e[4] for every e[3] items on their own
                           n == (Len(s) + e[3] - 1) \div e[3]
                           B(i) == SubSeq(s, (i - 1) * e[3] + 1, IF i * e[3] < Len(s) THEN i * e[3] ELSE Len(s))
                       IN FlattenSeq([i \in 1..n |-> Val(e[4], B(i))])
Eval(e) == Ev(e, <<>>)
=============================================================================
