------------------------------ MODULE SeqOps ------------------------------
(***************************************************************************)
(* The documented effect of every operation of boost::intrusive::list and  *)
(* boost::intrusive::slist (all layouts), on the abstract state            *)
(*    A, B : sequences of objects (the two containers involved)            *)
(*    K    : the key of every object                                       *)
(* Objects are positive integers.  Positions in arguments are 0-based, the *)
(* end is Len(A).  The same operators drive the model-checked state        *)
(* machine (SeqModel) and the conformance check of the code (SeqConform).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Range2(s) == { s[i] : i \in DOMAIN s }
NoDup(s)  == Cardinality(Range2(s)) = Len(s)
Sub(s, i, j) == SubSeq(s, i + 1, j)                       \* elements of [i, j)
Ins(s, p, t) == SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))
Del(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))
PosOf(s, x)  == CHOOSE i \in DOMAIN s : s[i] = x
MaxN(x, y)   == IF x > y THEN x ELSE y

\* comparison number c of keys: 0 is <, 1 is >
KLess(c, x, y) == IF c = 0 THEN x < y ELSE y < x
SortedBy(s, K, c) == \A i \in 1..(Len(s) - 1) : ~KLess(c, K[s[i + 1]], K[s[i]])
\* equivalence number m used by unique: 0 is same key, 1 is same key / 2
KEq(m, x, y) == IF m = 0 THEN x = y ELSE (x \div 2) = (y \div 2)

StableSort(s, K, c) ==
  LET idx == SortSeq([i \in 1..Len(s) |-> i],
                     LAMBDA i, j : \/ KLess(c, K[s[i]], K[s[j]])
                                   \/ ~KLess(c, K[s[j]], K[s[i]]) /\ i < j)
  IN  [i \in 1..Len(s) |-> s[idx[i]]]

\* positions kept by unique: each element is compared with the last one kept
RECURSIVE KeepUnique(_, _, _, _, _)
KeepUnique(s, K, m, i, last) ==
  IF i > Len(s) THEN <<>>
  ELSE IF last # 0 /\ KEq(m, K[s[last]], K[s[i]])
       THEN KeepUnique(s, K, m, i + 1, last)
       ELSE <<s[i]>> \o KeepUnique(s, K, m, i + 1, i)

Keep(s, P(_)) == SelectSeq(s, P)
Minus(s, t)   == LET R == Range2(t) IN SelectSeq(s, LAMBDA x : x \notin R)

\* shift_backwards: n times, the last element becomes the first; shift_forward is its inverse
RotB(s, n) == IF s = <<>> THEN s
              ELSE LET m == n % Len(s) IN SubSeq(s, Len(s) - m + 1, Len(s)) \o SubSeq(s, 1, Len(s) - m)
RotF(s, n) == IF s = <<>> THEN s
              ELSE LET m == n % Len(s) IN SubSeq(s, m + 1, Len(s)) \o SubSeq(s, 1, m)

At0(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0           \* 0 stands for end()
NONE == -1
BEFORE == -2

\* Result of an operation:
\*  a, b : contents afterwards      r : the position designated by the returned iterator
\*  d    : objects given to the disposer, in order
\*  c    : contents of the auxiliary container (moved-to, range-constructed, disposer's target)
Out(a, b, r)        == [a |-> a, b |-> b, r |-> r, d |-> <<>>, c |-> <<>>]
OutC(a, b, c)       == [a |-> a, b |-> b, r |-> NONE, d |-> <<>>, c |-> c]
\* removal of rem with disposal mode D (0: no disposer, 1: destroys, 2: inserts elsewhere)
OutD(a, b, r, rem, D) == [a |-> a, b |-> b, r |-> r, d |-> IF D = 0 THEN <<>> ELSE rem,
                          c |-> IF D = 2 THEN rem ELSE <<>>]

Enabled2(o, g, A, B, K) ==
  CASE o = "ins"  -> g[1] \in 0..Len(A)
    [] o = "era"  -> g[1] \in 0..(Len(A) - 1)
    [] o = "eras" -> 0 <= g[1] /\ g[1] <= g[2] /\ g[2] <= Len(A)
    [] o = "spl"  -> g[1] \in 0..Len(A) /\ 0 <= g[2] /\ g[2] <= g[3] /\ g[3] <= Len(B)
    [] o = "sspl" -> g[1] \in 0..Len(A) /\ 0 <= g[2] /\ g[2] <= g[3] /\ g[3] <= Len(A) /\ (g[1] <= g[2] \/ g[1] >= g[3])
    [] o = "merge" -> SortedBy(A, K, g[1]) /\ SortedBy(B, K, g[1])
    [] OTHER -> TRUE

SwapPos(s, x, y) == [i \in DOMAIN s |-> IF s[i] = x THEN y ELSE IF s[i] = y THEN x ELSE s[i]]

Eff(o, g, A, B, K) ==
  CASE o = "ins"  -> Out(Ins(A, g[1], <<g[2]>>), B, g[2])
    [] o = "insr" -> Out(Ins(A, g[1], Tail(g)), B, NONE)
    [] o = "era"  -> LET a2 == Del(A, g[1], g[1] + 1) IN OutD(a2, B, At0(a2, g[1]), <<A[g[1] + 1]>>, g[2])
    [] o = "eras" -> LET a2 == Del(A, g[1], g[2]) IN OutD(a2, B, At0(a2, g[1]), Sub(A, g[1], g[2]), g[3])
    [] o = "clr"  -> OutD(<<>>, B, NONE, A, g[1])
    [] o = "asg"  -> OutD(Tail(g), B, NONE, A, g[1])
    [] o = "spl"  -> LET x == Sub(B, g[2], g[3]) IN
                     Out(Ins(A, g[1], x), Del(B, g[2], g[3]),
                         \* slist's optional out parameter: last spliced element, or the position before if nothing moved
                         IF x # <<>> THEN x[Len(x)] ELSE IF g[1] = 0 THEN BEFORE ELSE A[g[1]])
    [] o = "sspl" -> LET x == Sub(A, g[2], g[3])
                         rest == Del(A, g[2], g[3])
                         p == IF g[1] <= g[2] THEN g[1] ELSE g[1] - (g[3] - g[2])
                     IN  Out(Ins(rest, p, x), B, NONE)
    [] o = "merge" -> LET m == StableSort(A \o B, K, g[1]) IN
                      \* slist's optional out parameter: last inserted element of B, or end() if there is none
                      Out(m, <<>>, IF B = <<>> THEN 0 ELSE B[Len(B)])
    [] o = "sort"  -> Out(StableSort(A, K, g[1]), B, NONE)
    [] o = "rev"   -> Out(Reverse(A), B, NONE)
    [] o = "shf"   -> Out(RotF(A, g[1]), B, NONE)
    [] o = "shb"   -> Out(RotB(A, g[1]), B, NONE)
    [] o = "unq"   -> LET k == KeepUnique(A, K, g[2], 1, 0) IN OutD(k, B, NONE, Minus(A, k), g[1])
    [] o = "rmv"   -> LET k == Keep(A, LAMBDA x : K[x] # g[1]) IN OutD(k, B, NONE, Minus(A, k), g[2])
    [] o = "rmi"   -> LET gone == { A[i] : i \in { j \in DOMAIN A : g[j] = 1 } }
                          k == Keep(A, LAMBDA x : x \notin gone)
                      IN OutD(k, B, NONE, Minus(A, k), g[Len(g)])
    [] o = "swap"  -> Out(B, A, NONE)
    [] o = "mva"   -> Out(B, A, NONE)
    [] o = "mvc"   -> OutC(A, B, A)           \* observed in the middle: source empty, target = A; then swapped back
    [] o = "ctr"   -> OutC(A, B, g)
    [] o = "dtor"  -> OutD(<<>>, B, NONE, A, 0)
    [] o = "unl"   -> Out(Minus(A, <<g[1]>>), Minus(B, <<g[1]>>), NONE)
    [] o = "del"   -> Out(Minus(A, <<g[1]>>), Minus(B, <<g[1]>>), NONE)
    [] o = "cpy"   -> Out(A, B, NONE)
    [] o = "swn"   -> Out(SwapPos(A, g[1], g[2]), SwapPos(B, g[1], g[2]), NONE)
    [] o = "rel"   -> Out(A, B, NONE)

\* What is still guaranteed when a user functor throws in the middle of an operation
\* (basic guarantee): no object in two places, disposer at most once, only for objects gone.
ThrowOK(A, B, a, b, d) ==
  /\ Range2(a) \cup Range2(b) \subseteq Range2(A) \cup Range2(B)
  /\ NoDup(a \o b)
  /\ NoDup(d)
  /\ Range2(d) \cap (Range2(a) \cup Range2(b)) = {}
  /\ Range2(d) \subseteq Range2(A) \cup Range2(B)
\* operations whose predicate can throw never touch the other container
ThrowKeepsB(o) == o # "merge"
=============================================================================
