------------------------------ MODULE OrdOps ------------------------------
(***************************************************************************)
(* The documented effect of every operation of the ordered containers      *)
(* (bstree, rbtree, avltree, sgtree, splaytree, treap and their set and    *)
(* multiset wrappers) on the abstract state                                *)
(*    A, B : the two containers involved, as sequences in iteration order  *)
(*    K    : the key of every object, in comparator order                  *)
(* Which tree implements the container is invisible at this level.         *)
(* Positions in arguments are 0-based, the end is Len(A).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Range2(s) == { s[i] : i \in DOMAIN s }
NoDup(s)  == Cardinality(Range2(s)) = Len(s)
Ins(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
Sub(s, i, j) == SubSeq(s, i + 1, j)
Del(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))
Minus(s, t)  == LET R == Range2(t) IN SelectSeq(s, LAMBDA x : x \notin R)
At0(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0           \* 0 stands for end()
NONE == -1

Sorted(s, K) == \A i \in 1..(Len(s) - 1) : K[s[i]] <= K[s[i + 1]]
StrictlySorted(s, K) == \A i \in 1..(Len(s) - 1) : K[s[i]] < K[s[i + 1]]
\* lower and upper bound: number of elements before the bound
LB(s, K, k) == Cardinality({ i \in DOMAIN s : K[s[i]] < k })
UB(s, K, k) == Cardinality({ i \in DOMAIN s : K[s[i]] <= k })
Has(s, K, k) == \E i \in DOMAIN s : K[s[i]] = k
Equivs(s, K, k) == { x \in Range2(s) : K[x] = k }
Clamp(p, lo, hi) == IF p < lo THEN lo ELSE IF p > hi THEN hi ELSE p

InsEq(s, K, x) == Ins(s, UB(s, K, K[x]), x)
\* a hinted insertion goes as close to the hint as the order allows
InsHint(s, K, p, x) == Ins(s, Clamp(p, LB(s, K, K[x]), UB(s, K, K[x])), x)
InsUq(s, K, x) == IF Has(s, K, K[x]) THEN s ELSE InsEq(s, K, x)
RECURSIVE InsRange(_, _, _, _)
InsRange(s, K, xs, unique) ==
  IF xs = <<>> THEN s ELSE InsRange(IF unique THEN InsUq(s, K, xs[1]) ELSE InsEq(s, K, xs[1]), K, Tail(xs), unique)
\* merge: the elements of B in order; in unique mode those with an equivalent stay behind
RECURSIVE Merge(_, _, _, _, _)
Merge(a, b, K, i, unique) ==
  IF i > Len(b) THEN <<a, b>>
  ELSE IF unique /\ Has(a, K, K[b[i]]) THEN Merge(a, b, K, i + 1, unique)
  ELSE Merge(InsEq(a, K, b[i]), Del(b, i - 1, i), K, i, unique)

\* Result of an operation:
\*  a, b : contents afterwards      r : the objects the returned iterator may designate (0: end)
\*  n    : the returned number (-1: none)   d : objects given to the disposer, in order
\*  c    : contents of the auxiliary container
Out(a, b, r, n) == [a |-> a, b |-> b, r |-> r, n |-> n, d |-> <<>>, c |-> <<>>]
OutC(a, b, c)   == [a |-> a, b |-> b, r |-> {NONE}, n |-> NONE, d |-> <<>>, c |-> c]
\* removal of rem with disposal mode D (0: no disposer, 1: destroys, 2: inserts elsewhere)
OutD(a, b, r, n, rem, D) == [a |-> a, b |-> b, r |-> r, n |-> n, d |-> IF D = 0 THEN <<>> ELSE rem, c |-> IF D = 2 THEN rem ELSE <<>>]

Swapped(s, x, y) == [i \in DOMAIN s |-> IF s[i] = x THEN y ELSE IF s[i] = y THEN x ELSE s[i]]

Fits(A, K, p, e, strict) ==
  /\ p > 0 => (IF strict THEN K[A[p]] < K[e] ELSE K[A[p]] <= K[e])
  /\ p < Len(A) => (IF strict THEN K[e] < K[A[p + 1]] ELSE K[e] <= K[A[p + 1]])

Enabled(o, g, A, B, K) ==
  CASE o \in {"insh", "inuh", "chkh", "chch"} -> g[1] \in 0..Len(A)
    [] o = "insb" -> g[1] \in 0..Len(A) /\ Fits(A, K, g[1], g[2], FALSE)
    [] o = "era"  -> g[1] \in 0..(Len(A) - 1)
    [] o = "eras" -> 0 <= g[1] /\ g[1] <= g[2] /\ g[2] <= Len(A)
    [] o = "rpn"  -> g[1] \in 0..(Len(A) - 1) /\ K[g[2]] = K[A[g[1] + 1]]
    [] o \in {"rmn", "rebs", "spu"} -> g[1] \in 0..(Len(A) - 1)
    [] o = "lk"   -> g[1] = 5 => (g[2] <= g[3] /\ (g[2] = g[3] => g[4] # 0))
    [] OTHER -> TRUE

\* the half-open position range of [lo, hi] with flags f: bit 0 left closed, bit 1 right closed
Bounded(s, K, lo, hi, f) == << IF f % 2 = 1 THEN LB(s, K, lo) ELSE UB(s, K, lo),
                               IF f >= 2 THEN UB(s, K, hi) ELSE LB(s, K, hi) >>

EffInsUq(A, B, K, e, two) ==
  IF Has(A, K, K[e]) THEN Out(A, B, Equivs(A, K, K[e]), IF two THEN 0 ELSE NONE)
  ELSE Out(InsEq(A, K, e), B, {e}, IF two THEN 1 ELSE NONE)
EffCheck(A, B, K, k) ==
  IF Has(A, K, k) THEN Out(A, B, Equivs(A, K, k), 0) ELSE Out(A, B, {NONE}, 1)
EffLookup(A, B, K, g) ==
  LET k == g[2]
      l == LB(A, K, k)
      u == UB(A, K, k)
  IN  CASE g[1] = 0 -> Out(A, B, { IF l < u THEN A[l + 1] ELSE 0 }, NONE)
        [] g[1] = 1 -> Out(A, B, { At0(A, l) }, NONE)
        [] g[1] = 2 -> Out(A, B, { At0(A, u) }, NONE)
        [] g[1] = 3 -> Out(A, B, { NONE }, u - l)
        [] g[1] = 4 -> Out(A, B, { At0(A, l) }, At0(A, u))
        [] g[1] = 5 -> LET p == Bounded(A, K, g[2], g[3], g[4]) IN Out(A, B, { At0(A, p[1]) }, At0(A, p[2]))
        [] g[1] = 6 -> Out(A, B, { At0(A, l) }, At0(A, IF l < u THEN l + 1 ELSE l))

Eff(o, g, A, B, K) ==
  CASE o = "inse" -> Out(InsEq(A, K, g[1]), B, {g[1]}, NONE)
    [] o = "insh" -> Out(InsHint(A, K, g[1], g[2]), B, {g[2]}, NONE)
    [] o = "insr" -> Out(InsRange(A, K, g, FALSE), B, {NONE}, NONE)
    [] o = "insu" -> EffInsUq(A, B, K, g[1], TRUE)
    [] o = "inuh" -> EffInsUq(A, B, K, g[2], FALSE)
    [] o = "inur" -> Out(InsRange(A, K, g, TRUE), B, {NONE}, NONE)
    [] o = "chk"  -> EffCheck(A, B, K, g[1])
    [] o = "chkh" -> EffCheck(A, B, K, g[2])
    [] o = "chc"  -> EffInsUq(A, B, K, g[1], TRUE)
    [] o = "chch" -> EffInsUq(A, B, K, g[2], TRUE)
    [] o = "insb" -> Out(Ins(A, g[1], g[2]), B, {g[2], NONE}, NONE)
    [] o = "era"  -> LET a2 == Del(A, g[1], g[1] + 1) IN OutD(a2, B, {At0(a2, g[1])}, NONE, <<A[g[1] + 1]>>, g[2])
    [] o = "eras" -> LET a2 == Del(A, g[1], g[2]) IN OutD(a2, B, {At0(a2, g[1])}, NONE, Sub(A, g[1], g[2]), g[3])
    [] o = "erak" -> LET l == LB(A, K, g[1])
                         u == UB(A, K, g[1])
                     IN  OutD(Del(A, l, u), B, {NONE}, u - l, Sub(A, l, u), g[2])
    [] o = "clr"  -> OutD(<<>>, B, {NONE}, NONE, A, g[1])
    [] o = "lk"   -> EffLookup(A, B, K, g)
    [] o = "merge" -> LET m == Merge(A, B, K, 1, g[1] = 0) IN Out(m[1], m[2], {NONE}, NONE)
    [] o = "swap" -> Out(B, A, {NONE}, NONE)
    [] o = "mva"  -> Out(B, A, {NONE}, NONE)
    [] o = "mvc"  -> OutC(A, B, A)            \* observed in the middle: source empty, target = A; then swapped back
    [] o = "ctr"  -> OutC(A, B, InsRange(<<>>, K, Tail(g), g[1] = 0))
    [] o = "dtor" -> Out(<<>>, B, {NONE}, NONE)
    [] o \in {"unl", "del"} -> Out(Minus(A, <<g[1]>>), Minus(B, <<g[1]>>), {NONE}, NONE)
    [] o = "swn"  -> OutC(A, B, Swapped(A, g[1], g[2]) \o Swapped(B, g[1], g[2]))   \* swapped, observed, swapped back
    [] o = "rpn"  -> Out([A EXCEPT ![g[1] + 1] = g[2]], B, {NONE}, NONE)
    [] o = "rmn"  -> Out(Del(A, g[1], g[1] + 1), B, {NONE}, NONE)
    [] o = "ulm"  -> OutC(<<>>, B, A)
    [] o = "spd"  -> Out(A, B, IF Has(A, K, g[1]) THEN Equivs(A, K, g[1]) ELSE Range2(A) \cup {0}, NONE)
    [] o \in {"cpy", "reb", "rebs", "spu", "bf", "rel"} -> Out(A, B, {NONE}, NONE)

\* ---- what is guaranteed when a comparison throws
\* single-element insertion, checks, lookups and erasure by key have no effect (the same for the
\* treap's priority functor on erasure and positional insertion)
Strong(o) == o \in {"inse", "insh", "insu", "inuh", "chk", "chkh", "chc", "chch", "insb", "era", "erak", "lk", "spd", "ctr"}
ThrowOK(o, A, B, a, b, d) ==
  IF Strong(o) THEN a = A /\ b = B /\ d = <<>>
  ELSE /\ NoDup(a \o b) /\ NoDup(d)
       /\ Range2(d) \cap (Range2(a) \cup Range2(b)) = {}
       /\ CASE o = "merge" -> Range2(a) \cup Range2(b) = Range2(A) \cup Range2(B) /\ d = <<>>
            [] o \in {"insr", "inur"} -> b = B /\ Range2(A) \subseteq Range2(a) /\ d = <<>>
            [] o = "eras" -> b = B /\ Range2(a) \subseteq Range2(A) /\ Range2(d) \subseteq Range2(A) \ Range2(a)
            [] OTHER -> TRUE
CanThrow(o, kd) == o \in {"inse", "insh", "insr", "insu", "inuh", "inur", "chk", "chkh", "chc", "chch", "erak", "lk", "merge", "ctr", "spd"}
                   \/ (kd = "TR" /\ o \in {"insb", "era", "eras"})

\* ---- history variables of the scapegoat tree: an interval [L, U] that contains its recorded maximum size
\* (alpha in thousandths; the interval absorbs rounding).  n -> m is the change of the number of elements.
RECURSIVE GErase(_, _, _, _, _)
GErase(gh, s, m, lo, hi) ==
  IF s < m THEN gh
  ELSE GErase(IF s <= 0 THEN gh
              ELSE IF s < (lo * gh[1]) \div 1000 THEN <<s, s>>
              ELSE IF s < (hi * gh[2]) \div 1000 + 1 /\ s < gh[1] THEN <<s, gh[2]>>
              ELSE gh, s - 1, m, lo, hi)
GGrow(gh, n, m) == IF m > n THEN << m, IF m > gh[2] THEN m ELSE gh[2] >> ELSE gh
Ghosts(o, g, g1, g2, na, nb, ma, mb, al, bl) ==
  CASE o \in {"swap", "mva"} -> << g2, g1 >>
    [] o \in {"clr", "dtor"} -> << <<0, 0>>, g2 >>
    [] o = "bf" -> << IF g[1] < al THEN <<ma, ma>> ELSE g1, g2 >>
    [] o = "ulm" -> << g1, g2 >>
    [] OTHER -> << GErase(GGrow(g1, na, ma), na - 1, ma, al - 1, al + 1),
                   GErase(g2, nb - 1, mb, (IF al < bl THEN al ELSE bl) - 1, (IF al < bl THEN bl ELSE al) + 1) >>
=============================================================================
