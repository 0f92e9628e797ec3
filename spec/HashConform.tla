---------------------------- MODULE HashConform ----------------------------
(***************************************************************************)
(* Binding of HashOps to the code: each record was produced by executing   *)
(* the real unordered containers (harness/hash.hpp).                       *)
(*  E  a transition: canonical pre-state (A = 1..na, B = na+1..na+nb in    *)
(*     iteration order), operation, everything observed afterwards         *)
(*  H  all observers of one container, positions in iteration order        *)
(*  Q  const lookups;  M  comparison of containers;  K  a clone_from;      *)
(*  L, B  see Obs                                                          *)
(***************************************************************************)
EXTENDS HashOps, Obs, Records

Bit(f, i) == (f \div i) % 2 = 1
Reordering == {"rhs", "frh", "irg", "irs", "irt", "chrc", "swap", "mva", "mvc", "rel", "dtor"}
Succ(s) == [x \in Range2(s) |-> LET p == CHOOSE i \in DOMAIN s : s[i] = x IN IF p < Len(s) THEN s[p + 1] ELSE 0]

BadE(r) ==
  LET A  == Flat(r.pa)
      B  == Flat(r.pb)
      na == Len(A)
      m  == r.m
      n  == Len(r.pa)
      sa == SplitOf(m, r.sa)
      sb == SplitOf(m, r.sb)
  IN  IF ~(A \o B = Iota(0, na + Len(B)) /\ Enabled(r.o, r.g, na)) THEN {"notenabled"}
      ELSE IF Crash(r) THEN { IF r.o \in {"unl", "del"} /\ Bit(r.fl, 4) THEN "linear-autounlink" ELSE "crash-" \o r.z }
      ELSE
      LET th  == r.x = 1
          num == Num(r.o, r.g, A, r.k, m, r.kh, n, sa)
          fa  == Flat(r.a)
          fb  == Flat(r.b)
          swp == r.o \in Swaps
          ta  == SplitOf(m, r.ta)
          tb  == SplitOf(m, r.tb)
          hb  == IF swp THEN r.ha ELSE r.hb
          known == { x \in Range2(fa \o fb \o r.fa \o r.fb) : x \notin DOMAIN r.k }
          succ == Succ(fa) @@ Succ(fb)
          unchanged == r.a = r.pa /\ r.b = r.pb
      IN  IF r.o = "mvc" /\ Bit(r.fl, 8) /\ (Range2(fa) # After(r.o, r.g, A, B, r.k) \/ ~NoDup(fa \o fb)) THEN {"copied-buckets"}
          ELSE IF r.o \in {"unl", "del"} /\ Bit(r.fl, 4) THEN If(Range2(fa) = After(r.o, r.g, A, B, r.k), "linear-autounlink")
          ELSE IF known # {} \/ ~NoDup(fa \o fb) THEN {"eff", "dup"}
          ELSE
            If(r.fa = fa /\ r.fb = fb, "fwd")
            \cup If(Placed(m, r.a, ta, r.hn) /\ Placed(m, r.b, tb, hb), "place")
            \cup If(Grouped(r.a, r.k) /\ Grouped(r.b, r.k), "group")
            \cup (IF th THEN
                    (IF unchanged /\ r.d = <<>> THEN {} ELSE IF Strong(r.o) THEN {"throw-strong"}
                     ELSE If(ThrowOK(r.o, r.g, A, B, fa, fb, r.d), "throw"))
                    \cup If(r.th > 0 /\ CanThrow(r.o), "x")
                    \cup If(tb = sb /\ r.yb = r.xb /\ r.ya = r.xa /\ (Strong(r.o) => ta = sa), "state")
                    \cup If(r.o = "chrc" \/ (Len(r.a) = n /\ r.ar = <<1, 2>>), "array")
                  ELSE
                    If(Range2(fa) = After(r.o, r.g, A, B, r.k) /\ Range2(fb) = AfterB(r.o, r.g, A, B), "eff")
                    \cup If(BucketsOK(r.o, num, r.pa, r.pb, sa, r.a, r.b), "buckets")
                    \cup If(r.r \in Ret(r.o, r.g, A, r.k), "ret") \cup If(r.n = num, "num")
                    \cup If(DisposalOK(r.o, r.g, A, r.k, r.d), "disp")
                    \cup If(AuxOK(r.o, r.g, A, r.k, r.c) /\ (r.o = "mvc" => r.c = A), "aux")
                    \cup If((IF swp THEN ta = sb /\ tb = sa ELSE ta = NewSplit(r.o, r.g, num, m, n, sa) /\ tb = sb)
                            /\ (IF swp THEN r.ya = r.xb /\ r.yb = r.xa ELSE r.ya = r.xa /\ r.yb = r.xb)
                            /\ (r.o = "mvc" => r.za = r.xa), "state")
                    \cup If(r.ar = NewArray(r.o, r.g, num)
                            /\ Len(r.a) = (IF swp THEN Len(r.pb) ELSE NewCount(r.o, r.g, num, n))
                            /\ Len(r.b) = (IF swp THEN n ELSE Len(r.pb)), "array")
                    \cup If(r.nh <= 0 \/ ~Bit(r.fl, 1), "nh"))
            \cup If(r.fc \in {-1, 0}, "fc") \cup If(r.cp = 0, "copy")
            \cup If(/\ Len(r.i) = na + Len(B)
                    /\ \A x \in 1..(na + Len(B)) :
                         r.i[x] = (IF x \notin DOMAIN succ \/ r.o \in Reordering THEN -1 ELSE succ[x]), "iter")
            \cup If(r.ee = 1, "end")
            \cup If(r.lk = 0, "link") \cup If(r.bad = 0, "early")

BadH(r) ==
  LET fw == Iota(0, r.n)
      fl == Flat(r.bk)
      sp == SplitOf(r.m, r.sp)
      last(i) == LET b == r.bk[Idx(r.m, r.h[i], r.bc, sp) + 1] IN b # <<>> /\ b[Len(b)] = i
  IN  If(r.fw = fw /\ r.cf = fw, "fwd")
      \cup If(r.sz = r.n, "size") \cup If(r.em = (IF r.n = 0 THEN 1 ELSE 0), "empty")
      \cup If(Len(r.bk) = r.bc /\ fl = fw /\ r.ck = r.bk /\ r.bs = [i \in 1..r.bc |-> Len(r.bk[i])], "local")
      \cup If(fl # fw \/ (Placed(r.m, r.bk, sp, r.h) /\ r.kb = [i \in 1..r.n |-> Idx(r.m, r.h[i], r.bc, sp)]), "place")
      \cup If(fl # fw \/ Grouped(r.bk, r.k), "group")
      \cup If(r.to = [i \in 1..r.n |-> IF i < r.n THEN i + 1 ELSE 0] /\ r.ct = fw, "iterto")
      \cup If(fl # fw \/ r.li = [i \in 1..r.n |-> IF last(i) THEN 0 ELSE i + 1], "localto")
      \cup If(r.vi = 1, "vinit")

BadQ(r) ==
  LET S == { i \in DOMAIN r.ks : r.ks[i] = r.q }
      c == Cardinality(S)
      lo == CHOOSE i \in S : \A j \in S : i <= j
      ok(v) == /\ v[1] = c
               /\ (IF c = 0 THEN v[2] = 0 /\ v[3] = 0 /\ v[4] = 0
                   ELSE v[2] \in S /\ v[3] = lo /\ v[4] = (IF lo + c <= Len(r.ks) THEN lo + c ELSE 0))
               /\ v[5] = Idx(r.m, r.h, r.bc, SplitOf(r.m, r.sp))
  IN  If(ok(r.r) /\ ok(r.g), "lookup")

Count(s, v) == Cardinality({ i \in DOMAIN s : s[i] = v })
BadM(r) ==
  LET eq == Len(r.ka) = Len(r.kb) /\ \A v \in Range2(r.ka) : Count(r.ka, v) = Count(r.kb, v)
      lt == LexLess(r.ka, r.kb)
      gt == LexLess(r.kb, r.ka)
  IN  If(r.r = << B2I(eq), B2I(~eq), B2I(eq), 1 >>, "cmp")
      \cup If(r.l \in { <<>>, << B2I(lt), B2I(gt), B2I(~gt), B2I(~lt) >> }, "cmp")

\* clone_from: source 1..na, B na+1..na+nb, previous target contents (q objects), clones afterwards in creation order
BadK(r) ==
  IF Crash(r) THEN {"crash-" \o r.z} ELSE
  LET T == Range2(Iota(r.na + r.nb, r.q))
      base == r.na + r.nb + r.q
      made == Len(r.of)
      C == Range2(Iota(base, made))
      src(x) == r.of[x - base]
      fl == Flat(r.c)
      x1 == r.x = 1
      hc == [x \in C |-> r.h[src(x)]]
      kc == [x \in C |-> r.k[src(x)]]
  IN  If(r.a = Iota(0, r.na), "src")
      \cup If(r.fc = fl, "fwd")
      \cup If(NoDup(r.of) /\ Range2(r.of) \subseteq Range2(r.a) /\ (x1 \/ made = r.na), "order")
      \cup If((r.x = 0 \/ r.th > 0) /\ (r.th \in 1..r.na => x1), "x")
      \cup (IF x1 THEN If(fl = <<>>, "clone")
            ELSE If(NoDup(fl) /\ Range2(fl) = C, "clone")
                 \cup (IF Range2(fl) # C THEN {}
                       ELSE If(Placed(r.m, r.c, SplitOf(r.m, r.tc), hc), "place") \cup If(Grouped(r.c, kc), "group")))
      \cup If(r.bn = r.bc /\ (x1 \/ r.na = 0 \/ r.xc = r.xa) /\ SplitOf(r.m, r.tc) = SplitOf(r.m, r.sp), "state")
      \cup If(NoDup(r.d) /\ Len(r.d) >= r.q /\ Range2(SubSeq(r.d, 1, r.q)) = T
              /\ (IF x1 THEN Range2(r.d) = T \cup C ELSE Len(r.d) = r.q), "disp")
      \cup If(r.lk = 0, "link") \cup If(r.bad = 0, "early")

Bad(r) == CASE r.t = "E" -> BadE(r) [] r.t = "K" -> BadK(r)
            [] Crash(r) -> {"crash-" \o r.z}
            [] r.t = "H" -> BadH(r) [] r.t = "Q" -> BadQ(r) [] r.t = "M" -> BadM(r)
            [] r.t = "L" -> BadL(r) [] r.t = "X" -> BadX(r) [] r.t = "B" -> BadB(r) [] OTHER -> {"crash-unknown"}

Inv == LET bad == Bad(Rec) IN bad = {} \/ Report(bad)
=============================================================================
