----------------------------- MODULE HashModel -----------------------------
(***************************************************************************)
(* The state machine of two hash tables over a pool of objects, at the     *)
(* level of the design: buckets, split count, stepwise rehashing.          *)
(* TLC explores it exhaustively for small pools and bucket counts and      *)
(* checks (1) that every step satisfies the contract HashOps, to which the *)
(* code is bound, and (2) the properties users rely on, stated             *)
(* independently of it.                                                    *)
(***************************************************************************)
EXTENDS HashOps, TLC
CONSTANTS Objs,      \* objects 1..n
          KeyOf,     \* sequence of keys
          HashOf,    \* hash of key k is HashOf[k + 1]
          Mode,      \* how hashes select buckets
          Counts,    \* bucket counts
          Salts      \* states of the hash function
VARIABLES A, B, op, pre
vars == <<A, B, op, pre>>

\* a container: b buckets, s split count, t state of its hash function
Hash(k, t) == HashOf[k + 1] + 5 * t
H(t) == [x \in Objs |-> Hash(KeyOf[x], t)]
Empty(n, t) == [b |-> [i \in 1..n |-> <<>>], s |-> InitialSplit(Mode, n), t |-> t]
N(c) == Len(c.b)
F(c) == Flat(c.b)
Mem(c) == Members(c.b)
Bucket(c, k) == Idx(Mode, Hash(k, c.t), N(c), c.s)

Put(c, x) ==
  LET i == Bucket(c, KeyOf[x]) + 1
      E == { j \in DOMAIN c.b[i] : KeyOf[c.b[i][j]] = KeyOf[x] }
      p == IF E = {} THEN 0 ELSE CHOOSE j \in E : \A l \in E : j <= l
  IN  [c EXCEPT !.b[i] = SubSeq(@, 1, p) \o <<x>> \o SubSeq(@, p + 1, Len(@))]
\* what a search for key k sees: only the bucket of its hash
Found(c, k) == SelectSeq(c.b[Bucket(c, k) + 1], LAMBDA x : KeyOf[x] = k)
PutU(c, x) == IF Found(c, KeyOf[x]) # <<>> THEN c ELSE Put(c, x)
RECURSIVE PutAll(_, _, _)
PutAll(c, xs, u) == IF xs = <<>> THEN c ELSE PutAll(IF u THEN PutU(c, xs[1]) ELSE Put(c, xs[1]), Tail(xs), u)
Drop(c, S) == [c EXCEPT !.b = RestrictB(@, Mem(c) \ S)]
Rehash(c, n, t) == PutAll([b |-> [i \in 1..n |-> <<>>], s |-> RehashSplit(Mode, n), t |-> t], Reverse(F(c)), FALSE)
\* one step of incremental growth: bucket s - n/2 is split in two
Grow(c) ==
  LET n == N(c)
      i == c.s - n \div 2 + 1
      hi(x) == Idx(Mode, Hash(KeyOf[x], c.t), n, c.s + 1) = c.s
  IN  IF n = 1 THEN [c EXCEPT !.s = 1]
      ELSE [c EXCEPT !.s = @ + 1, !.b[i] = SelectSeq(@, LAMBDA x : ~hi(x)), !.b[c.s + 1] = SelectSeq(c.b[i], LAMBDA x : hi(x))]
Shrink(c) ==
  LET n == N(c)
      i == c.s - n \div 2
  IN  IF n = 1 THEN [c EXCEPT !.s = 0]
      ELSE [c EXCEPT !.s = @ - 1, !.b[i] = c.b[c.s] \o @, !.b[c.s] = <<>>]
Resize(c, n) == [c EXCEPT !.b = [i \in 1..n |-> IF i <= N(c) THEN c.b[i] ELSE <<>>]]

First(s) == IF s = <<>> THEN 0 ELSE s[1]
NextOf(c, x) == LET s == F(c)
                    i == CHOOSE j \in DOMAIN s : s[j] = x IN IF i < Len(s) THEN s[i + 1] ELSE 0
R(a, b, r, n, d, c) == [A |-> a, B |-> b, r |-> r, n |-> n, d |-> d, c |-> c]
Plain(a) == R(a, B, NONE, NONE, <<>>, <<>>)
Removal(S, n, D) == LET rem == Only(F(A), S) IN R(Drop(A, S), B, NONE, n, IF D = 0 THEN <<>> ELSE rem, IF D = 2 THEN rem ELSE <<>>)

Do(o, g) ==
  CASE o = "ins" -> R(Put(A, g[1]), B, g[1], NONE, <<>>, <<>>)
    [] o = "insr" -> Plain(PutAll(A, g, FALSE))
    [] o \in {"insu", "chc"} -> LET f == Found(A, KeyOf[g[1]]) IN R(PutU(A, g[1]), B, IF f = <<>> THEN g[1] ELSE f[1], IF f = <<>> THEN 1 ELSE 0, <<>>, <<>>)
    [] o = "chrc" -> LET f == Found(A, KeyOf[g[1]]) IN IF f # <<>> THEN R(A, B, f[1], 0, <<>>, <<>>) ELSE R(Put(Rehash(A, g[3], A.t), g[1]), B, g[1], 1, <<>>, <<>>)
    [] o = "inur" -> Plain(PutAll(A, g, TRUE))
    [] o = "chk" -> LET f == Found(A, g[1]) IN R(A, B, IF f = <<>> THEN NONE ELSE f[1], IF f = <<>> THEN 1 ELSE 0, <<>>, <<>>)
    [] o = "era" -> Removal({F(A)[g[1] + 1]}, NONE, g[2])
    [] o = "eras" -> Removal(Range2(Sub(F(A), g[1], g[2])), NONE, g[3])
    [] o = "erak" -> LET f == Found(A, g[1]) IN Removal(Range2(f), Len(f), g[2])
    [] o = "clr" -> Removal(Mem(A), NONE, g[1])
    [] o = "lk" -> LET f == Found(A, g[2]) IN
         CASE g[1] = 0 -> R(A, B, First(f), NONE, <<>>, <<>>) [] g[1] = 1 -> R(A, B, NONE, Len(f), <<>>, <<>>)
           [] g[1] = 2 -> R(A, B, First(f), IF f = <<>> THEN 0 ELSE NextOf(A, f[Len(f)]), <<>>, <<>>)
           [] OTHER -> R(A, B, NONE, Bucket(A, g[2]), <<>>, <<>>)
    [] o \in Swaps -> R(B, A, NONE, NONE, <<>>, <<>>)
    [] o = "mvc" -> R(A, B, NONE, NONE, <<>>, F(A))
    [] o = "ctr" -> R(A, B, NONE, NONE, <<>>, F(PutAll(Empty(CHOOSE n \in Counts : TRUE, A.t), Tail(g), g[1] = 0)))
    [] o = "dtor" -> Plain(Empty(N(A), A.t))
    [] o = "rhs" -> Plain(Rehash(A, g[2], A.t))
    [] o = "frh" -> Plain(Rehash(A, N(A), g[1]))
    [] o = "irg" -> IF A.s < N(A) THEN R(Grow(A), B, NONE, 1, <<>>, <<>>) ELSE R(A, B, NONE, 0, <<>>, <<>>)
    [] o = "irs" -> IF A.s > N(A) \div 2 THEN R(Shrink(A), B, NONE, 1, <<>>, <<>>) ELSE R(A, B, NONE, 0, <<>>, <<>>)
    [] o = "irt" -> IF (g[2] = 2 * N(A) /\ A.s >= N(A)) \/ (2 * g[2] = N(A) /\ A.s <= g[2])
                    THEN R(Resize(A, g[2]), B, NONE, 1, <<>>, <<>>) ELSE R(A, B, NONE, 0, <<>>, <<>>)
    [] o \in {"unl", "del"} -> R(Drop(A, {g[1]}), Drop(B, {g[1]}), NONE, NONE, <<>>, <<>>)
    [] OTHER -> Plain(A)

Pool == Objs \ (Mem(A) \cup Mem(B))
Keys == 0..3
Few == {<<>>} \cup { <<x, y>> : x, y \in Pool }
Lists == { u \in Few : NoDup(u) }
Na == Len(F(A))
Ops ==
  { <<o, <<e>> >> : o \in {"ins", "insu", "chc"}, e \in Pool } \cup { <<"chrc", <<e, q, n>> >> : e \in Pool, q \in 0..1, n \in Counts }
  \cup { <<o, t>> : o \in {"insr", "inur"}, t \in Lists } \cup { <<"chk", <<k>> >> : k \in Keys }
  \cup { <<"era", <<p, d>> >> : p \in 0..(Na - 1), d \in 0..2 }
  \cup { <<"eras", <<p, q, d>> >> : p \in 0..Na, q \in 0..Na, d \in 0..2 }
  \cup { <<"erak", <<k, d>> >> : k \in Keys, d \in 0..2 } \cup { <<"clr", <<d>> >> : d \in 0..2 }
  \cup { <<"lk", <<z, k>> >> : z \in 0..3, k \in Keys }
  \cup { <<o, <<>> >> : o \in {"swap", "mva", "mvc", "dtor"} } \cup { <<"ctr", <<z>> \o t>> : z \in 0..1, t \in Lists }
  \cup { <<"rhs", <<q, n>> >> : q \in 0..1, n \in Counts } \cup { <<"frh", <<s>> >> : s \in Salts }
  \cup (IF Mode = INC THEN { <<"irg", <<>> >>, <<"irs", <<>> >> } \cup { <<"irt", <<q, n>> >> : q \in 0..1, n \in Counts } ELSE {})
  \cup { <<o, <<x>> >> : o \in {"unl", "del"}, x \in Objs }
Can(x) == Enabled(x[1], x[2], Na)

IdleOp == <<"init", <<>>, NONE, NONE, <<>>, <<>> >>
Init == A = Empty(CHOOSE n \in Counts : \A k \in Counts : n <= k, 0) /\ B = Empty(CHOOSE n \in Counts : \A k \in Counts : n >= k, 0) /\ op = IdleOp /\ pre = <<A, B>>
Step(x) == LET e == Do(x[1], x[2]) IN A' = e.A /\ B' = e.B /\ op' = <<x[1], x[2], e.r, e.n, e.d, e.c>> /\ pre' = <<A, B>>
Next == \E x \in Ops : Can(x) /\ Step(x)

\* ---- (1) the step is one the contract allows
O == op[1]
G == op[2]
Contract == O = "init" \/
  LET PA == pre[1]
      PB == pre[2]
      fa == F(PA)
      num == Num(O, G, fa, KeyOf, Mode, IF O = "lk" THEN Hash(G[2], PA.t) ELSE 0, N(PA), PA.s)
  IN  /\ Mem(A) = After(O, G, fa, F(PB), KeyOf) /\ Mem(B) = AfterB(O, G, fa, F(PB))
      /\ BucketsOK(O, num, PA.b, PB.b, PA.s, A.b, B.b)
      /\ op[3] \in Ret(O, G, fa, KeyOf) /\ op[4] = num
      /\ DisposalOK(O, G, fa, KeyOf, op[5]) /\ AuxOK(O, G, fa, KeyOf, op[6])
      /\ (O \in Swaps \/ (N(A) = NewCount(O, G, num, N(PA)) /\ A.s = NewSplit(O, G, num, Mode, N(PA), PA.s)))
\* ---- (2) independent properties
OK(c) == /\ Placed(Mode, c.b, c.s, H(c.t)) /\ Grouped(c.b, KeyOf)
         /\ (Mode = INC => N(c) \div 2 <= c.s /\ c.s <= N(c) /\ \A i \in (c.s + 1)..N(c) : i = 1 \/ c.b[i] = <<>>)
Invariant == OK(A) /\ OK(B) /\ NoDup(F(A) \o F(B))
\* searching only the selected bucket finds every element with that key
SearchComplete == \A c \in {A, B}, k \in Keys : Range2(Found(c, k)) = { x \in Mem(c) : KeyOf[x] = k }
\* stepping the split back undoes stepping it forward; a complete sweep equals one rehash to the doubled array
Sweep == O = "irg" /\ op[4] = 1 => [i \in DOMAIN A.b |-> Range2(Shrink(A).b[i])] = [i \in DOMAIN A.b |-> Range2(pre[1].b[i])] /\ Shrink(A).s = pre[1].s
Doubling == O = "irt" /\ op[4] = 1 => F(A) = F(pre[1])
RehashKeeps == O \in {"rhs", "frh", "irg", "irs", "irt"} => Mem(A) = Mem(pre[1]) /\ B = pre[2]
UniqueBlocked == O \in {"insu", "chc", "chrc"} /\ op[4] = 0 => A = pre[1]
Inv == Contract /\ Invariant /\ SearchComplete /\ Sweep /\ Doubling /\ RehashKeeps /\ UniqueBlocked
\* ---- arithmetic facts the implementation relies on
ASSUME \A n1 \in 1..32, n2 \in 1..32, h \in 0..70 : n1 % n2 = 0 => (h % n1) % n2 = h % n2          \* fast shrink
ASSUME \A n \in 1..32, h \in 0..200 : Idx(INC, h, 2 * n, n) = h % n /\ Idx(INC, h, n, n) = h % n     \* doubling the array
ASSUME \A n \in {2, 4, 8, 16}, h \in 0..100 : \A s \in (n \div 2)..(n - 1) :                          \* a step moves only one bucket
         Idx(INC, h, n, s) # Idx(INC, h, n, s + 1) => Idx(INC, h, n, s) = s - n \div 2 /\ Idx(INC, h, n, s + 1) = s
=============================================================================
