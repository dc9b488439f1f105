-------------------------- MODULE TraceContainers --------------------------
EXTENDS Containers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
\* what is seen of container i after the step
Obs(e) == LET s == SubSeq(c'[e.i].mem, 1, c'[e.i].n)  n == Len(s) IN
    CASE kind = "stack" -> e.size = n /\ e.empty = (n = 0) /\ (IF n = 0 THEN e.top = UNDEF ELSE e.top = s[n])
      [] kind = "vector" -> e.size = n /\ e.empty = (n = 0) /\ e.s = s /\ e.s2 = s /\ e.s3 = s /\ (n = 0 \/ (e.front = s[1] /\ e.back = s[n]))
      [] kind = "maybe" -> LET t == IF n = 0 THEN UNDEF ELSE s[1] IN e.size = n /\ e.top = t /\ e.top2 = t /\ e.top3 = t /\ e.top4 = t
      [] kind = "queue" -> e.size = n /\ e.empty = (n = 0) /\ e.full = (n = Len(c'[e.i].mem)) /\ (n = 0 \/ (e.front = s[1] /\ e.back = s[n]))
      [] kind = "pq" -> e.size = n /\ e.empty = (n = 0) /\ (IF n = 0 THEN e.top = UNDEF ELSE Least(s, e.top))
      [] kind \in {"set", "multiset", "map", "multimap"} -> e.size = n /\ e.empty = (n = 0) /\ e.s = s /\ e.rs = Reverse(s)
      [] kind \in {"array", "bits"} -> e.size = n /\ e.empty = (n = 0) /\ e.s = s /\ e.rs = Reverse(s) /\ e.s2 = s /\ e.rs2 = Reverse(s)
                                       /\ (n = 0 \/ (e.front = s[1] /\ e.back = s[n]))
      [] kind = "dsu" -> /\ e.count = c'[e.i].n /\ \A j \in 1..Len(c'[e.i].mem) : (e.is[j] = 1) = (c'[e.i].mem[j] # UNDEF)
                         /\ (e.f = <<>> \/ LET m == c'[e.i].mem f == e.f IN
                                /\ Len(f) = Len(m)
                                /\ \A x \in 1..Len(m) : IF m[x] = UNDEF THEN f[x] = UNDEF ELSE f[x] \in 0..(Len(m) - 1) /\ m[f[x] + 1] = m[x] /\ f[f[x] + 1] = f[x]
                                /\ \A x, g \in 1..Len(m) : m[x] # UNDEF /\ m[x] = m[g] => f[x] = f[g])
B(x) == IF x THEN 1 ELSE 0
Query(s, k) == LET lo == Lower(s, k)  up == Upper(s, k) IN <<lo, up, up - lo, IF up > lo THEN lo ELSE Len(s), lo, up>>
Cmp(s, t) == <<B(s = t), B(s # t), B(LexLess(s, t)), B(~LexLess(t, s)), B(LexLess(t, s)), B(~LexLess(s, t))>>
RECURSIVE Stable(_, _)
Stable(s, vs) == IF vs = <<>> THEN s ELSE Stable(InsertAt(s, Upper(s, Key(Head(vs))), Head(vs)), Tail(vs))
Same == UNCHANGED vars
Step(e) == LET i == e.i IN
    CASE e.e = "resize" \/ e.e = "new0" -> New(i, e.n)
      [] e.e = "clear" -> Clear(i)
      [] e.e = "clear0" -> Set(i, <<>>)
      [] e.e = "push" -> (CASE kind = "pq" -> PPush(i, e.v) [] kind = "queue" -> QPush(i, e.v) [] OTHER -> SPush(i, e.v))
      [] e.e = "pop" -> (CASE kind = "pq" -> PPop(i, e.v) [] kind = "queue" -> QPop(i) [] OTHER -> SPop(i))
      [] e.e = "poppush" -> PPopPush(i, e.v, e.w)
      [] e.e = "repush" -> SRepush(i)
      [] e.e = "assign" -> SAssign(i, e.j, e.v)
      [] e.e = "tins" -> LET s == c[i].mem new == Multi \/ ~(\E j \in 1..Len(s) : Key(s[j]) = Key(e.v)) IN
                         TInsert(i, e.v) /\ e.r = 2 * (IF Multi THEN Upper(s, Key(e.v)) ELSE Lower(s, Key(e.v))) + B(new)
      [] e.e = "tinss" -> Set(i, TAll(c[i].mem, e.v))
      [] e.e = "terk" -> LET s == c[i].mem IN e.r = Upper(s, e.k) - Lower(s, e.k) /\ TErase(i, Lower(s, e.k), Upper(s, e.k))
      [] e.e = "ter" -> TErase(i, e.a, e.b) /\ e.r = e.a
      [] e.e = "tq" -> e.r = Query(c[i].mem, e.k) /\ e.r2 = e.r /\ Same
      [] e.e = "tcmp" -> e.r = Cmp(c[0].mem, c[1].mem) /\ Same
      [] e.e = "tat" -> LET s == c[i].mem  lo == Lower(s, e.k)  up == Upper(s, e.k) IN
                        (IF up > lo THEN e.r = s[lo + 1] ELSE e.r = UNDEF) /\ Same
      [] e.e = "tidx" -> LET s == c[i].mem  lo == Lower(s, Key(e.v)) IN
                         IF Upper(s, Key(e.v)) > lo THEN Set(i, [s EXCEPT ![lo + 1] = e.v]) ELSE TInsert(i, e.v)
      [] e.e = "make" -> DMake(i, e.a)
      [] e.e = "union" -> DUnion(i, e.a, e.b) /\ e.r \in 0..(Len(c[i].mem) - 1) /\ c'[i].mem[e.r + 1] = c'[i].mem[e.a + 1]
      [] e.e = "afill" -> AFill(i, e.n, e.v)
      [] e.e = "aset" -> ASet(i, e.j, e.v)
      [] e.e = "aview" -> LET s == SubSeq(c[i].mem, e.x + 1, e.y)  n == Len(s) IN
                          /\ e.len = n /\ e.none = (n = 0) /\ e.v = s /\ e.v2 = s /\ e.ok
                          /\ (IF n = 0 THEN e.vf = UNDEF ELSE e.vf = s[1] /\ e.vb = s[n]) /\ Same
      [] e.e = "aslice" -> ASlice(i, e.x, e.y)
      [] e.e = "mcon" -> IF e.x THEN c[i].n = 1 /\ Same ELSE MConstruct(i, e.v)
      [] e.e = "masg" -> e.x = (c[0].n + c[1].n > 0) /\ Same
      [] e.e = "mcpy" -> e.x = (c[i].n = 1) /\ Same
      [] e.e = "acmp" -> e.r = <<B(c[0].mem = c[1].mem), B(c[0].mem # c[1].mem)>> /\ Same
      [] e.e = "sort" -> Set(i, Stable(<<>>, c[i].mem))
      [] e.e = "copy" -> Copy(i, 1 - i)
      [] e.e = "swap" -> Swap
      [] e.e = "same" -> Same
      [] OTHER -> FALSE
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.e = "new" -> kind' = e.kind /\ c' = [i \in 0..1 |-> [n |-> 0, mem |-> <<>>]]
              [] e.e = "gone" -> e.live = 0 /\ e.mem = 0 /\ UNCHANGED vars
              [] OTHER -> Step(e) /\ (("size" \in DOMAIN e \/ "count" \in DOMAIN e) => Obs(e))
TSpec == l = 1 /\ kind = "stack" /\ c = [i \in 0..1 |-> [n |-> 0, mem |-> <<>>]] /\ [][TNext]_<<vars, l>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
