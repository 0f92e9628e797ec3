------------------------------ MODULE HashOps ------------------------------
(***************************************************************************)
(* The documented effect of every operation of the unordered containers    *)
(* (hashtable, unordered_set, unordered_multiset).  A container is          *)
(*    b : its buckets, each a sequence of objects;  their concatenation is  *)
(*        the iteration order                                               *)
(*    s : its split count (incremental: number of buckets in use; fastmod:  *)
(*        index of the bucket count in the table of primes; otherwise 0)    *)
(* and m is the way hashes select buckets.  The order of unrelated          *)
(* elements within a bucket is left open; everything else is determined.    *)
(* hf[x] is the hash of object x under the container's hasher, K[x] its key.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MOD == 0   P2 == 1   INC == 2   FM == 3
Primes == <<3, 7, 11, 17, 29, 53, 97>>                  \* first fastmod bucket counts
NONE == -1

Range2(s) == { s[i] : i \in DOMAIN s }
NoDup(s)  == Cardinality(Range2(s)) = Len(s)
Flat(b)   == FlattenSeq(b)
Members(b) == UNION { Range2(b[i]) : i \in DOMAIN b }
Sub(s, i, j) == SubSeq(s, i + 1, j)
Only(s, S) == SelectSeq(s, LAMBDA x : x \in S)
RestrictB(b, S) == [i \in DOMAIN b |-> Only(b[i], S)]

\* ---- which bucket (0-based) an object with hash h lives in, out of n buckets with split s
Idx(m, h, n, s) == LET b == h % n IN IF m = INC /\ b >= s THEN b - n \div 2 ELSE b
InitialSplit(m, n) == CASE m = INC -> n \div 2 [] m = FM -> (CHOOSE i \in DOMAIN Primes : Primes[i] = n) - 1 [] OTHER -> 0
RehashSplit(m, n)  == IF m = INC THEN n ELSE InitialSplit(m, n)
SplitOf(m, s) == IF m \in {INC, FM} THEN s ELSE 0

Contiguous(s, K) == \A i, j \in DOMAIN s : i < j /\ K[s[i]] = K[s[j]] => \A l \in i..j : K[s[l]] = K[s[i]]
\* the invariant of every container: each element once, in its bucket, equivalent elements adjacent
Placed(m, b, s, hf) == \A i \in DOMAIN b : \A j \in DOMAIN b[i] : Idx(m, hf[b[i][j]], Len(b), s) = i - 1
Grouped(b, K) == \A i \in DOMAIN b : Contiguous(b[i], K)

Equivs(S, K, k) == { x \in S : K[x] = k }
Has(S, K, k) == \E x \in S : K[x] = k
RECURSIVE AddUnique(_, _, _)
AddUnique(S, xs, K) == IF xs = <<>> THEN S ELSE AddUnique(IF Has(S, K, K[xs[1]]) THEN S ELSE S \cup {xs[1]}, Tail(xs), K)

Swaps == {"swap", "mva"}
Enabled(o, g, na) ==
  CASE o = "era" -> g[1] \in 0..(na - 1)
    [] o = "eras" -> 0 <= g[1] /\ g[1] <= g[2] /\ g[2] <= na
    [] OTHER -> TRUE
\* contents of A afterwards; A and B are the sequences in iteration order
After(o, g, A, B, K) ==
  LET S == Range2(A) IN
  CASE o = "ins" -> S \cup {g[1]}
    [] o = "insr" -> S \cup Range2(g)
    [] o \in {"insu", "chc", "chrc"} -> AddUnique(S, <<g[1]>>, K)
    [] o = "inur" -> AddUnique(S, g, K)
    [] o = "era" -> S \ {A[g[1] + 1]}
    [] o = "eras" -> S \ Range2(Sub(A, g[1], g[2]))
    [] o = "erak" -> S \ Equivs(S, K, g[1])
    [] o \in {"clr", "dtor"} -> {}
    [] o \in Swaps -> Range2(B)
    [] o \in {"unl", "del"} -> S \ {g[1]}
    [] OTHER -> S                                       \* chk lk cpy rel mvc ctr rhs frh irg irs irt
AfterB(o, g, A, B) == IF o \in Swaps THEN Range2(A) ELSE IF o \in {"unl", "del"} THEN Range2(B) \ {g[1]} ELSE Range2(B)
\* operations that leave the buckets alone, and those that only add or remove elements
Inert == {"chk", "lk", "cpy", "rel", "mvc", "ctr"}
Local == {"ins", "insr", "insu", "inur", "chc", "era", "eras", "erak", "clr", "unl", "del"}

\* ---- results.  r: objects the returned iterator may designate; n: returned number; d: objects disposed; c: other contents
DMode(o, g) == IF o \in {"era", "eras", "erak", "clr"} THEN g[Len(g)] ELSE 0
Removed(o, g, A, K) ==
  CASE o = "era" -> <<A[g[1] + 1]>> [] o = "eras" -> Sub(A, g[1], g[2])
    [] o = "erak" -> Only(A, Equivs(Range2(A), K, g[1])) [] o = "clr" -> A [] OTHER -> <<>>
OrderedDisposal == {"era", "eras"}
DisposalOK(o, g, A, K, d) ==
  LET rem == Removed(o, g, A, K) IN
  IF DMode(o, g) = 0 THEN d = <<>> ELSE IF o \in OrderedDisposal THEN d = rem ELSE NoDup(d) /\ Range2(d) = Range2(rem)
AuxOK(o, g, A, K, c) ==
  LET want == CASE o = "mvc" -> Range2(A)
                [] o = "ctr" -> IF g[1] = 0 THEN AddUnique({}, Tail(g), K) ELSE Range2(Tail(g))
                [] OTHER -> IF DMode(o, g) = 2 THEN Range2(Removed(o, g, A, K)) ELSE {}
  IN NoDup(c) /\ Range2(c) = want
Ret(o, g, A, K) ==
  LET S == Range2(A) IN
  CASE o = "ins" -> {g[1]}
    [] o \in {"insu", "chc", "chrc"} -> LET q == Equivs(S, K, K[g[1]]) IN IF q = {} THEN {g[1]} ELSE q
    [] o = "chk" -> LET q == Equivs(S, K, g[1]) IN IF q = {} THEN {NONE} ELSE q
    [] o = "lk" -> LET q == Only(A, Equivs(S, K, g[2])) IN
                   CASE g[1] = 0 -> IF q = <<>> THEN {0} ELSE Range2(q)
                     [] g[1] = 2 -> IF q = <<>> THEN {0} ELSE {q[1]}
                     [] OTHER -> {NONE}
    [] OTHER -> {NONE}
\* kh: hash of the key looked up; n buckets, split s
Num(o, g, A, K, m, kh, n, s) ==
  LET S == Range2(A) IN
  CASE o \in {"insu", "chc", "chrc"} -> IF Has(S, K, K[g[1]]) THEN 0 ELSE 1
    [] o = "chk" -> IF Has(S, K, g[1]) THEN 0 ELSE 1
    [] o = "erak" -> Cardinality(Equivs(S, K, g[1]))
    [] o = "lk" -> LET q == Only(A, Equivs(S, K, g[2])) IN
                   CASE g[1] = 1 -> Len(q)
                     [] g[1] = 2 -> IF q = <<>> THEN 0
                                    ELSE LET p == (CHOOSE i \in DOMAIN A : A[i] = q[1]) + Len(q) IN IF p <= Len(A) THEN A[p] ELSE 0
                     [] g[1] = 3 -> Idx(m, kh, n, s)
                     [] OTHER -> NONE
    [] o = "irg" -> IF s < n THEN 1 ELSE 0
    [] o = "irs" -> IF s > n \div 2 THEN 1 ELSE 0
    [] o = "irt" -> IF (g[2] = 2 * n /\ s >= n) \/ (2 * g[2] = n /\ s <= g[2]) THEN 1 ELSE 0
    [] OTHER -> NONE

\* ---- number of buckets, split count, bucket array (1: A's, 2: B's, 3: the newly supplied one)
Rehashes(o, g, num) == o = "rhs" \/ (o = "chrc" /\ num = 1)
NewCount(o, g, num, n) == IF Rehashes(o, g, num) THEN g[Len(g)] ELSE IF o = "irt" /\ num = 1 THEN g[2] ELSE n
NewSplit(o, g, num, m, n, s) ==
  CASE Rehashes(o, g, num) -> RehashSplit(m, g[Len(g)])
    [] o = "frh" -> RehashSplit(m, n)
    [] o = "dtor" -> InitialSplit(m, n)
    [] o = "irg" -> s + num [] o = "irs" -> s - num [] OTHER -> s
NewArray(o, g, num) ==
  IF o \in Swaps THEN <<2, 1>>
  ELSE IF (o = "rhs" /\ g[1] = 1) \/ (o = "chrc" /\ num = 1 /\ g[2] = 1) \/ (o = "irt" /\ num = 1 /\ g[1] = 1) THEN <<3, 2>> ELSE <<1, 2>>

\* ---- how the buckets relate to the buckets before
BucketsOK(o, num, pa, pb, s, a, b) ==
  CASE o \in Swaps -> a = pb /\ b = pa
    [] o \in Inert -> a = pa /\ b = pb
    [] o \in {"unl", "del"} -> LET S == Members(a)
                                   T == Members(b) IN Len(a) = Len(pa) /\ Len(b) = Len(pb) /\ a = RestrictB(pa, S) /\ b = RestrictB(pb, T)
    [] o \in Local -> b = pb /\ Len(a) = Len(pa) /\ LET S == Members(a) \cap Members(pa) IN RestrictB(a, S) = RestrictB(pa, S)
    [] o = "chrc" /\ num = 0 -> a = pa /\ b = pb
    [] o \in {"irg", "irs"} -> b = pb /\ Len(a) = Len(pa) /\
         IF num = 0 THEN a = pa
         ELSE LET t == IF o = "irg" THEN s ELSE s - 1       \* the upper bucket of the pair that is split or joined
                  n == Len(pa)
              IN \A i \in 1..n : i - 1 \in {t, t - n \div 2} \/ a[i] = pa[i]
    [] o = "irt" -> b = pb /\ \A i \in 1..Len(a) : a[i] = (IF i <= Len(pa) THEN pa[i] ELSE <<>>)
    [] OTHER -> b = pb                                       \* rhs frh chrc dtor: by placement

\* ---- guarantees when a hash or equality functor throws
Strong(o) == o \in {"ins", "insu", "chk", "chc", "lk", "ctr", "mvc"}
ThrowOK(o, g, A, B, fa, fb, d) ==
  /\ NoDup(fa \o fb) /\ NoDup(d) /\ fb = B
  /\ Range2(d) \subseteq Range2(A) \ Range2(fa)
  /\ (o \in {"insr", "inur"} => Range2(A) \subseteq Range2(fa) /\ Range2(fa) \subseteq Range2(A) \cup Range2(g) /\ d = <<>>)
  /\ (o \in {"erak", "eras", "rhs", "frh", "irg", "irs"} => Range2(fa) \subseteq Range2(A))
  /\ (o = "chrc" => Range2(fa) \subseteq Range2(A) \cup {g[1]})
CanThrow(o) == o \in {"ins", "insr", "insu", "inur", "chk", "chc", "chrc", "erak", "lk", "ctr", "rhs", "frh", "irg", "irs"}
=============================================================================
