---------------------------- MODULE WorkConform ----------------------------
(***************************************************************************)
(* The documented complexities as bounds on what one call may do: w = node    *)
(* and bucket accesses, f = comparisons, hs / e = hasher and equality calls,   *)
(* pr = predicate calls, al = allocations, cp = copies, moves or destructions  *)
(* of user objects.  n = size of the container, m = size of the other one or    *)
(* of the inserted range, d = distance, p = position, k = elements equivalent  *)
(* to the key, h = height, nb = buckets.  nl = normal links, cs = constant-time *)
(* size, cl = cached last element (slist) or first bucket (hash), li = linear.   *)
(* The constants are several times what the calls need: a bound is broken by a  *)
(* different order of growth, not by another coefficient.                        *)
(***************************************************************************)
EXTENDS Records
If(c, x) == IF c THEN {} ELSE {x}
Crash(r) == "z" \in DOMAIN r

Const == 64                       \* a bounded number of accesses
Lin(q) == 30 * q + 64             \* linear in q
RECURSIVE Lg(_)                   \* 1 + floor(log2 n)
Lg(n) == IF n <= 1 THEN 1 ELSE 1 + Lg(n \div 2)
NLogN(q, n) == 80 * (q + 1) * (Lg(n) + 1) + 64
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE AvlMin(_)               \* fewest nodes of an AVL tree of a given height
AvlMin(h) == IF h <= 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE AvlMin(h - 1) + AvlMin(h - 2) + 1
Max(a, b) == IF a > b THEN a ELSE b
Unbounded == 2000000000

(* ------------------------------------------------------------------ node accesses *)
\* what both kinds of list promise
SeqWork(r) ==
  LET o == r.o
      back == r.c = "slist" /\ r.cl = 0        \* a singly linked list without cached last element has to look for it
  IN CASE o \in {"begin", "end", "empty", "front", "iter", "cfe", "puf", "pof", "back", "last", "insa", "eraa", "splai", "splarn"} -> Const
       [] o = "size" -> IF r.cs = 1 THEN Const ELSE Lin(r.n)
       [] o \in {"swap", "mva", "mvc"} ->      \* move assignment exchanges the contents
            IF r.c = "list" \/ r.cl = 1 \/ r.li = 1 THEN Const ELSE Lin(r.n + r.m)
       [] o \in {"clear", "dtor"} -> IF r.nl = 1 THEN Const ELSE Lin(r.n)
       [] o \in {"clrd", "walk", "rev", "rmi", "rmv", "unq", "unqp", "ctr"} -> Lin(r.n)
       [] o \in {"asg", "asgd", "clone", "merge"} -> Lin(r.n + r.m)
       [] o = "sort" -> NLogN(r.n, r.n)
       [] o \in {"shf", "shb"} -> IF r.c = "list" THEN Lin(IF r.d = 0 THEN 0 ELSE r.d) ELSE Lin(r.n + r.d)
       \* singly linked: the element before a position has to be found, except the last one when it is cached
       [] o = "ins" -> IF r.c = "list" \/ (r.cl = 1 /\ r.p = r.n) THEN Const ELSE Lin(r.p)
       [] o \in {"insr"} -> IF r.c = "list" \/ (r.cl = 1 /\ r.p = r.n) THEN Lin(r.m) ELSE Lin(r.m + r.p)
       [] o = "insar" -> Lin(r.m)
       [] o = "era" -> IF r.c = "list" THEN Const ELSE Lin(r.p)
       [] o = "eras" -> IF r.c = "list" THEN IF r.nl = 1 /\ r.cs = 0 THEN Const ELSE Lin(r.d) ELSE Lin(r.p + r.d)
       [] o = "erasn" -> IF r.c = "list" THEN IF r.nl = 1 THEN Const ELSE Lin(r.d) ELSE IF r.nl = 1 /\ r.cs = 1 THEN Lin(r.p) ELSE Lin(r.p + r.d)
       [] o = "erasa" -> IF r.nl = 1 /\ r.cs = 0 THEN Const ELSE Lin(r.d)
       [] o = "erasan" -> IF r.nl = 1 THEN Const ELSE Lin(r.d)
       [] o = "erasd" -> IF r.c = "list" THEN Lin(r.d) ELSE Lin(r.p + r.d)
       [] o = "erasd0" -> Lin(r.d + 1)
       [] o = "spl" -> IF r.c = "list" THEN Const ELSE IF r.cl = 1 THEN IF r.p = r.n THEN Const ELSE Lin(r.p) ELSE Lin(r.p + r.m)
       [] o = "spla" -> IF r.cl = 1 \/ (r.li = 1 /\ r.n = 0) THEN Const ELSE Lin(r.m)
       [] o = "splal" -> IF r.cl = 1 THEN Const ELSE Lin(r.m)
       \* splices out of a list of m elements, from position k, into a list of n elements at position p
       [] o = "spli" -> IF r.c = "list" THEN Const ELSE IF r.cl = 1 /\ r.p = r.n THEN Lin(r.k) ELSE Lin(r.p + r.k)
       [] o = "splr" -> IF r.c = "list" THEN IF r.cs = 1 THEN Lin(r.d) ELSE Const ELSE IF r.cl = 1 /\ r.p = r.n THEN Lin(2 * r.k + 2 * r.d) ELSE Lin(r.p + 2 * r.k + 2 * r.d)
       [] o = "splrn" -> IF r.c = "list" THEN Const ELSE IF r.cl = 1 /\ r.p = r.n THEN Lin(2 * r.k + r.d) ELSE Lin(r.p + 2 * r.k + r.d)
       [] o = "splar" -> IF r.cs = 1 THEN Lin(r.d) ELSE Const
       [] o = "prev" -> IF r.cl = 1 /\ r.p = r.n THEN Const ELSE Lin(r.p)
       [] o = "prevf" -> IF r.cl = 1 /\ r.p = r.n THEN Const ELSE Lin(r.d)
       [] OTHER -> Const
Lookups == {"find", "lower", "upper", "range", "bound", "check", "mfind", "mlower", "mupper", "mrange", "mbound", "cfi"}
TreeWork(r) ==
  LET o == r.o
      path == 40 * (r.h + 1) + 64           \* a bounded number of walks along one path
      some == IF r.c = "sg" THEN Lin(r.n) ELSE 0     \* a scapegoat tree may rebuild
  IN CASE o \in {"begin", "rbegin", "end", "back", "empty", "root", "iter", "cfe", "swap", "mva", "mvc", "repl", "height"} -> Const
       [] o = "size" -> IF r.cs = 1 THEN Const ELSE Lin(r.n)
       [] o = "clear" -> IF r.nl = 1 THEN Const ELSE Lin(r.n)
       [] o \in {"dtor", "clrd", "walk", "unlall", "rebal"} -> Lin(r.n)
       [] o = "clone" -> Lin(r.n + r.m)
       [] o \in {"count", "mcount"} -> path + Lin(r.k)
       [] o \in Lookups -> path
       [] o \in {"ins", "insu", "inh", "inuh", "chkh", "inhx", "commit", "insb", "pub", "puf", "era"} -> path + some
       [] o = "erak" -> (r.k + 1) * path + some
       [] o = "eras" -> (r.d + 1) * path + some
       [] o \in {"fill", "drain"} -> IF r.c = "bs" THEN Unbounded ELSE NLogN(r.n, r.n)
       [] o = "sorted" -> IF r.c \in {"sp", "sg"} THEN NLogN(r.n, r.n) ELSE IF r.c = "bs" THEN Lin(2 * r.n) ELSE Lin(3 * r.n)
       [] o = "mixed" -> IF r.c = "bs" THEN Unbounded ELSE NLogN(r.n + r.m, r.n)
       [] o = "seek" -> IF r.c = "sp" THEN NLogN(r.n + r.m, r.n) ELSE r.m * path
       [] o \in {"mergee", "mergeu"} -> IF r.c = "bs" THEN Lin((r.m + 1) * (r.n + r.m)) ELSE NLogN(r.m + (IF r.c = "sp" THEN r.n ELSE 0), r.n + r.m) + r.m * 40 * (r.h + 1) + some
       [] OTHER -> Const
HashWork(r) ==
  LET o == r.o
      ch == Lin(r.p)                          \* the chain of one bucket
      upd == IF r.cl = 1 THEN 10 * r.nb ELSE 0   \* looking for the new first bucket
  IN CASE o \in {"end", "iter", "liter", "bcnt", "bucket", "swap", "mva", "mvc", "commit", "stepn"} -> Const
       [] o = "begin" -> IF r.cl = 1 THEN Const ELSE Const + 10 * r.nb
       [] o = "empty" -> IF r.cl = 1 \/ r.cs = 1 THEN Const ELSE Const + 10 * r.nb
       [] o = "size" -> IF r.cs = 1 THEN Const ELSE Lin(r.n + r.nb)
       [] o \in {"clear", "dtor"} -> IF r.nl = 1 THEN Lin(r.nb) ELSE Lin(r.n + r.nb)
       [] o \in {"clrd", "walk", "rehash", "frehash", "grow", "eras"} -> Lin(r.n + r.nb)
       [] o = "clone" -> Lin(2 * (r.n + r.nb + r.m))
       [] o \in {"bsize", "lwalk", "find", "count", "check", "ins", "insu"} -> ch
       [] o = "range" -> ch + 10 * r.nb
       [] o \in {"era", "erak", "step"} -> ch + upd
       [] o = "fill" -> Unbounded
       [] OTHER -> Const
Work(r) == CASE r.c \in {"list", "slist"} -> SeqWork(r) [] r.c = "hash" -> HashWork(r) [] OTHER -> TreeWork(r)

(* ------------------------------------------------------------------ comparisons *)
One(r) == 2 * r.h + 4                 \* one descent
Cmp(r) ==
  LET o == r.o IN
  IF r.c \in {"list", "slist"} THEN CASE o = "merge" -> Max(0, r.n + r.m - 1) [] o = "sort" -> r.n * (Lg(r.n) + 1) [] OTHER -> 0
  ELSE CASE o \in {"find", "lower", "upper", "check", "ins", "insu", "inhx", "mfind", "mlower", "mupper"} -> IF r.c = "sp" THEN 2 * One(r) ELSE One(r)
         [] o \in {"range", "bound", "mrange", "mbound"} -> 2 * One(r)
         [] o = "erak" -> 2 * One(r) + r.k
         [] o \in {"count", "mcount"} -> 2 * One(r) + r.k
         [] o \in {"inh", "inuh", "chkh"} -> IF r.c = "sp" THEN 2 * One(r) ELSE 2     \* immediately before the hint
         [] o \in {"fill", "mixed"} -> IF r.c = "bs" THEN Unbounded ELSE 8 * (r.n + r.m + 1) * (Lg(r.n) + 1)
         [] o = "seek" -> IF r.c = "sp" THEN 8 * (r.n + r.m + 1) * (Lg(r.n) + 1) ELSE r.m * One(r)
         [] o = "sorted" -> IF r.c = "sp" THEN 8 * (r.n + 1) * (Lg(r.n) + 1) ELSE 3 * r.n
         [] o \in {"mergee", "mergeu"} -> IF r.c = "bs" THEN (r.m + 1) * (r.n + r.m + 2) ELSE 8 * (r.n + r.m + 1) * (Lg(r.n + r.m) + 1) + r.m * One(r)
         [] OTHER -> 0
\* balanced by construction
Height(r) ==
  CASE r.c = "rb" -> r.h <= 30 /\ Pow2(r.h) <= (r.n + 1) * (r.n + 1)
    [] r.c = "avl" -> AvlMin(r.h) <= r.n
    [] OTHER -> TRUE

(* ------------------------------------------------------------------ hasher, equality, predicates *)
Bit(x, b) == (x \div b) % 2 = 1
Hashes(r) ==
  LET o == r.o store == Bit(r.x, 1) IN
  CASE r.c # "hash" -> 0
    [] o \in {"find", "count", "range", "check", "ins", "insu", "erak", "bucket"} -> 1
    [] o \in {"rehash", "clone", "eras"} -> IF store THEN 0 ELSE r.n
    [] o \in {"frehash", "fill"} -> r.n
    [] o = "era" -> IF store THEN 0 ELSE 1
    [] o = "iter" -> IF r.li = 1 /\ ~store THEN 2 ELSE 0   \* linear buckets: the bucket of each of the two elements
    [] o = "step" -> IF store THEN 0 ELSE r.p
    [] OTHER -> 0
Equals(r) ==
  LET o == r.o IN
  CASE r.c # "hash" -> CASE o = "rmv" -> r.n [] o = "unq" -> Max(0, r.n - 1) [] OTHER -> 0
    [] o \in {"find", "count", "range", "check", "ins", "insu", "erak"} -> r.d + 1
    [] o \in {"fill", "clone", "rehash", "frehash", "step"} -> Unbounded
    [] OTHER -> 0
Preds(r) ==
  LET o == r.o IN
  CASE o = "rmi" /\ r.c \in {"list", "slist"} -> r.n
    [] o = "unqp" /\ r.c \in {"list", "slist"} -> Max(0, r.n - 1)
    [] r.c = "tr" -> Unbounded              \* priorities
    [] OTHER -> 0

\* a history over three distinct keys: splaying stops at one of many equivalent elements, so nothing is amortised
Dups(r) == r.c = "sp" /\ r.o \in {"fill", "seek"} /\ r.d = 2
BadW(r) ==
  If(r.al = 0, "allocates") \cup If(r.cp = 0, "copies")
  \cup If(r.w <= Work(r), IF Dups(r) THEN "splay-duplicates" ELSE "work") \cup If(r.f <= Cmp(r), IF Dups(r) THEN "splay-duplicates" ELSE "comparisons") \cup If(r.o # "height" \/ Height(r), "height")
  \cup If(r.hs <= Hashes(r), "hashes") \cup If(r.e <= Equals(r), "equalities")
  \cup If(r.pr <= Preds(r), "predicates")
  \* documented to be exact
  \cup If((r.c \in {"list", "slist"} /\ r.o \in {"rmi", "unqp"}) => r.pr = Preds(r), "predicates")
  \cup If((r.c \in {"list", "slist"} /\ r.o \in {"rmv", "unq"}) => r.e = Equals(r), "equalities")

Bad(r) == IF Crash(r) THEN {"crash-" \o r.z} ELSE CASE r.t = "W" -> BadW(r) [] OTHER -> {"crash-unknown"}
Inv == LET bad == Bad(Rec) IN bad = {} \/ Report(bad)
=============================================================================
