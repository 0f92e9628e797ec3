----------------------------- MODULE OrdConform -----------------------------
(***************************************************************************)
(* Binding of OrdOps to the code: each record was produced by executing    *)
(* the real ordered containers (harness/tree.hpp).                         *)
(*  E  a transition: canonical pre-state (A = 1..na, B = na+1..na+nb),     *)
(*     operation, and everything observed afterwards                       *)
(*  T  the physical structure of one tree (positions in iteration order)   *)
(*  Q, R, V  const lookups, bounded_range, value_comp                      *)
(*  K  a clone_from;   S, L, B, C  see Obs                                 *)
(***************************************************************************)
EXTENDS OrdOps, Obs, Records

Succ(s) == [x \in Range2(s) |-> LET p == CHOOSE i \in DOMAIN s : s[i] = x IN IF p < Len(s) THEN s[p + 1] ELSE 0]
Moving == {"swap", "mva"}
\* splay trees: what must have become the root (positional insertion and splay_up: the element itself;
\* lookups, checks and splay_down: an element equivalent to the key, when there is one)
RootOK(r) ==
  LET byKey(q) == LET S == Equivs(r.a, r.k, q) IN S = {} \/ r.rt \in S
  IN  CASE r.o = "lk" -> r.g[1] = 3 \/ byKey(r.g[2])
        [] r.o = "insb" -> r.rt = r.g[2]
        [] r.o = "spu" -> r.rt = r.g[1] + 1
        [] r.o = "spd" -> byKey(r.g[1]) /\ r.rt = r.r
        [] r.o = "chk" -> byKey(r.g[1])
        [] r.o = "chkh" -> byKey(r.g[2])
        [] r.o \in {"insu", "chc"} -> r.n = 1 \/ byKey(r.k[r.g[1]])
        [] r.o = "chch" -> r.n = 1 \/ byKey(r.k[r.g[2]])
        [] OTHER -> TRUE
\* an exception in the middle of an erasure of several equivalent elements of a treap
PartialErase(r, A, B) ==
  LET l == IF r.o = "eras" THEN r.g[1] ELSE LB(A, r.k, r.g[1])
      u == IF r.o = "eras" THEN r.g[2] ELSE UB(A, r.k, r.g[1])
      D == IF r.o = "eras" THEN r.g[3] ELSE r.g[2]
  IN  r.b = B /\ \E j \in l..u : r.a = Del(A, l, j) /\ r.d = (IF D = 0 THEN <<>> ELSE Sub(A, l, j))
ThrowAspect(r, A, B) ==
  IF r.a = A /\ r.b = B /\ r.d = <<>> THEN {}
  ELSE IF r.kd = "TR" /\ r.o \in {"eras", "erak"} THEN (IF PartialErase(r, A, B) THEN {"strong-range"} ELSE {"throw-strong"})
  ELSE IF Strong(r.o) THEN {"throw-strong"}
  ELSE If(ThrowOK(r.o, A, B, r.a, r.b, r.d), "throw")

BadE(r) ==
  LET A == Iota(0, r.na)
      B == Iota(r.na, r.nb)
  IN  IF ~Enabled(r.o, r.g, A, B, r.k) THEN {"notenabled"}
      ELSE IF Crash(r) THEN {"crash-" \o r.z}
      ELSE
      LET e  == Eff(r.o, r.g, A, B, r.k)
          th == r.x = 1
          post == r.a \o r.b
          succ == Succ(r.a) @@ Succ(r.b)
          iOK == /\ Len(r.i) = r.na + r.nb
                 /\ \A x \in 1..(r.na + r.nb) :
                       r.i[x] = (IF r.o = "rel" \/ x \notin DOMAIN succ THEN -1 ELSE succ[x])
          moved == r.o \in Moving /\ ~th
          stOK == /\ r.o = "dtor" \/ r.ya = (IF moved THEN r.xb
                             ELSE IF r.o = "bf" THEN [r.xa EXCEPT ![Len(r.xa)] = r.g[1]] ELSE r.xa)
                  /\ r.yb = (IF moved THEN r.xa ELSE r.xb)
                  /\ (r.o = "mvc" => r.za = r.xa)
          al(x) == IF r.fp = 1 THEN x[Len(x)] ELSE 750
      IN  IF ~NoDup(post) THEN {"eff", "dup"} ELSE
          (IF th THEN ThrowAspect(r, A, B) \cup If(r.th > 0 /\ CanThrow(r.o, r.kd), "x")
           ELSE If(r.a = e.a /\ r.b = e.b, "eff")
                \cup If(r.r = NONE \/ r.r \in e.r, "ret") \cup If(r.n = e.n, "num")
                \cup If(r.d = e.d, "disp")
                \cup If(r.c = e.c, "aux")
                \cup If(r.kd # "SP" \/ RootOK(r), "root"))
          \cup If(stOK, "state")
          \cup If(r.kd # "SG" \/ << r.h1, r.h2 >> =
                    Ghosts(r.o, r.g, r.g1, r.g2, r.na, r.nb, Len(r.a), Len(r.b), al(r.xa), al(r.xb)), "ghost")
          \cup If(r.fc \in {-1, 0}, "fc") \cup If(r.cp = 0, "copy")
          \cup If(iOK, "iter")
          \cup If(r.ee = 1 \/ r.o \in {"swap", "mva", "mvc", "dtor", "rel"}, "end")
          \cup If(r.lk = 0, "link") \cup If(r.bad = 0, "early")

\* clone_from: source 1..na, B na+1..na+nb, previous target contents T (q objects), clones afterwards.
\* Clones may be made in any order; the target holds them in the source's order, in the source's structure.
BadK(r) ==
  IF Crash(r) THEN {"crash-" \o r.z} ELSE
  LET A == Iota(0, r.na)
      T == Iota(r.na + r.nb, r.q)
      base == r.na + r.nb + r.q
      made == IF r.x = 1 THEN r.th - 1 ELSE r.na
      C == Iota(base, made)
  IN  If(r.x = B2I(r.th >= 1 /\ r.th <= r.na), "x")
      \cup If(r.a = A, "src")
      \cup If(Len(r.of) = made /\ NoDup(r.of) /\ Range2(r.of) \subseteq Range2(A), "order")
      \cup If(IF r.x = 1 THEN r.c = <<>>
              ELSE Len(r.c) = r.na /\ \A i \in 1..Len(r.c) : r.c[i] > base /\ r.c[i] <= base + Len(r.of) /\ r.of[r.c[i] - base] = i, "clone")
      \cup If(r.x = 1 \/ r.s1 = r.s2, "shape")
      \cup If(r.x = 1 \/ r.na = 0 \/ r.xc = r.xa, "state")
      \cup If(SubSeq(r.d, 1, r.q) = T /\ (IF r.x = 1 THEN Len(r.d) = r.q + made /\ NoDup(r.d) /\ Range2(r.d) = Range2(T) \cup Range2(C)
                                           ELSE Len(r.d) = r.q), "disp")
      \cup If(r.lk = 0, "link") \cup If(r.bad = 0, "early")

\* ---- physical structure.  Walk(r, i, lo, hi): the subtree rooted at position i must hold exactly positions lo..hi;
\* yields <<links consistent, height in nodes, black height (-1: differs somewhere)>>
RECURSIVE Walk(_, _, _, _)
Walk(r, i, lo, hi) ==
  IF lo > hi THEN << i = 0, 0, 1, TRUE >>
  ELSE IF i < lo \/ i > hi THEN << FALSE, 0, 1, TRUE >>
  ELSE LET a == Walk(r, r.l[i], lo, i - 1)
           b == Walk(r, r.r[i], i + 1, hi)
           h == (IF a[2] > b[2] THEN a[2] ELSE b[2]) + 1
           red == r.k = "RB" /\ r.x[i] = 1
       IN  << a[1] /\ b[1] /\ (r.l[i] = 0 \/ r.p[r.l[i]] = i) /\ (r.r[i] = 0 \/ r.p[r.r[i]] = i),
              h,
              IF a[3] = -1 \/ a[3] # b[3] THEN -1 ELSE a[3] + (IF red THEN 0 ELSE 1),
              a[4] /\ b[4] /\ (CASE r.k = "AVL" -> r.x[i] = b[2] - a[2] /\ r.x[i] \in -1..1
                                 [] r.k = "RB" -> red => (r.l[i] = 0 \/ r.x[r.l[i]] = 0) /\ (r.r[i] = 0 \/ r.x[r.r[i]] = 0)
                                 [] r.k = "TR" -> (r.l[i] = 0 \/ r.x[i] <= r.x[r.l[i]]) /\ (r.r[i] = 0 \/ r.x[i] <= r.x[r.r[i]])
                                 [] OTHER -> TRUE) >>
\* largest h with (1000/al)^h <= U, rounded upwards
RECURSIVE HAlpha(_, _)
HAlpha(u, al) == LET v == (u * al + 999) \div 1000 IN IF v < 1000 \/ v >= u THEN 0 ELSE 1 + HAlpha(v, al)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

BadT(r) ==
  IF r.n = 0 THEN If(r.hp = 0 /\ r.hl = -1 /\ r.hr = -1 /\ r.rt = 0, "links") \cup If(r.k # "TR" \/ r.top = 0, "top")
  ELSE IF r.hp < 1 \/ r.hp > r.n THEN {"links"}
  ELSE
  LET w == Walk(r, r.hp, 1, r.n)
  IN  If(w[1] /\ r.p[r.hp] = -1 /\ r.hl = 1 /\ r.hr = r.n /\ r.rt = r.hp, "links")
      \cup (IF ~w[1] THEN {} ELSE
           (CASE r.k = "RB" -> If(r.x[r.hp] = 0 /\ w[3] # -1 /\ w[4], "rb")
              [] r.k = "AVL" -> If(w[4], "avl")
              [] r.k = "TR" -> If(w[4], IF r.au = 1 THEN "heap-autounlink" ELSE "heap")
                               \cup If(r.au = 1 \/ r.top = r.hp, "top")
              [] r.k = "SG" -> If(r.U < 0 \/ w[2] - 1 <= HAlpha(r.U * 1000, r.al + 1) + 1, "sg")
              [] OTHER -> {})
           \cup If(r.mh = 0 \/ w[2] = Log2(r.n) + 1, "minheight"))

\* ---- const lookups: positions are 1-based, 0 is end()
PosOr0(s, i) == IF i < Len(s) THEN i + 1 ELSE 0
BadQ(r) ==
  LET n == Len(r.ks)
      I == Iota(0, n)
      l == LB(I, r.ks, r.q)
      u == UB(I, r.ks, r.q)
      L == PosOr0(I, l)
      U == PosOr0(I, u)
      ok(v) == v[1] = u - l /\ v[2] = (IF l < u THEN L ELSE 0) /\ v[3] = L /\ v[4] = U /\ v[5] = L /\ v[6] = U
      lr == << L, IF l < u THEN PosOr0(I, l + 1) ELSE L >>
  IN  If(ok(r.r) /\ ok(r.h), "lookup") \cup If(r.lr \in {<<>>, lr \o lr}, "lookup-range")
BadR(r) ==
  LET I == Iota(0, Len(r.ks))
      b(f) == LET p == Bounded(I, r.ks, r.lo, r.hi, f) IN << PosOr0(I, p[1]), PosOr0(I, p[2]) >>
      want == (IF r.lo = r.hi THEN <<-1, -1>> ELSE b(0)) \o b(1) \o b(2) \o b(3)
  IN  If(r.r = want /\ r.h = want, "bounded")
BadV(r) == If(r.r = << B2I(r.p < r.q), B2I(r.q < r.p) >>, "valuecomp")

\* A twin of the container: committing after a check, or checking only, against plain unique insertion, or nothing.
BadJ(r) == If(r.n = r.m, "twin-ret") \cup If(r.s1 = r.s2, "twin")

Bad(r) == CASE r.t = "E" -> BadE(r) [] r.t = "K" -> BadK(r)
            [] Crash(r) -> {"crash-" \o r.z}
            [] r.t = "T" -> BadT(r) [] r.t = "Q" -> BadQ(r) [] r.t = "R" -> BadR(r) [] r.t = "V" -> BadV(r)
            [] r.t = "S" -> BadS(r) [] r.t = "L" -> BadL(r) [] r.t = "X" -> BadX(r) [] r.t = "J" -> BadJ(r)
            [] r.t = "B" -> BadB(r) [] r.t = "C" -> BadC(r) [] OTHER -> {"crash-unknown"}

Inv == LET bad == Bad(Rec) IN bad = {} \/ Report(bad)
=============================================================================
