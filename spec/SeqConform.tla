---------------------------- MODULE SeqConform ----------------------------
(***************************************************************************)
(* Binding of SeqOps to the code: each record was produced by executing    *)
(* the real containers (harness/seq.hpp).                                  *)
(*  E  a transition: pre-state (canonical: A = 1..na, B = na+1..na+nb),    *)
(*     operation, and everything observed afterwards                       *)
(*  S  an observation of one container through all its const observers     *)
(*  L  link flags of all objects;  B  the bystander container;             *)
(*  C  relational operators;       K  a clone_from                         *)
(* TLC visits every record; Bad(r) is the set of aspects in which the code *)
(* left the specification.                                                 *)
(***************************************************************************)
EXTENDS SeqOps, Obs, Records

Succ(s) == [x \in Range2(s) |-> LET p == PosOf(s, x) IN IF p < Len(s) THEN s[p + 1] ELSE 0]

BadE(r) ==
  LET A == Iota(0, r.na)
      B == Iota(r.na, r.nb)
      crash == "z" \in DOMAIN r
  IN  IF ~Enabled2(r.o, r.g, A, B, r.k) THEN {"notenabled"}
      ELSE IF crash THEN {"crash-" \o r.z}
      ELSE
      LET e  == Eff(r.o, r.g, A, B, r.k)
          th == r.x = 1
          post == r.a \o r.b
          succ == Succ(r.a) @@ Succ(r.b)
          iOK == /\ Len(r.i) = r.na + r.nb
                 /\ NoDup(post)
                 /\ \A x \in 1..(r.na + r.nb) :
                       r.i[x] = (IF r.o = "rel" \/ x \notin DOMAIN succ THEN -1 ELSE succ[x])
      IN  (IF th THEN If(ThrowOK(A, B, r.a, r.b, r.d) /\ (ThrowKeepsB(r.o) => r.b = B), "throw") \cup If(r.th > 0, "x")
           ELSE If(r.a = e.a /\ r.b = e.b, "eff")
                \cup If(r.r \in {NONE, e.r}, "ret")
                \cup If(r.d = e.d, "disp")
                \cup If(r.c = e.c, "aux"))
          \cup If(iOK, "iter")
          \cup If(r.ee = 1 \/ r.o \in {"swap", "mva", "mvc", "dtor", "rel"}, "end")
          \cup If(r.lk = 0, "link")
          \cup If(r.bad = 0, "early")
          \cup If(r.cp = 0, "copy")

\* clone_from: source 1..na, B na+1..na+nb, previous target contents T (q objects), clones afterwards
BadK(r) ==
  IF "z" \in DOMAIN r THEN {"crash-" \o r.z} ELSE
  LET A == Iota(0, r.na)
      T == Iota(r.na + r.nb, r.q)
      made == IF r.x = 1 THEN r.th - 1 ELSE r.na
      C == Iota(r.na + r.nb + r.q, made)
  IN  If(r.x = B2I(r.th >= 1 /\ r.th <= r.na), "x")
      \cup If(r.a = A, "src")
      \cup If(IF r.x = 1 THEN r.c = <<>> ELSE r.c = C, "clone")
      \cup If(r.of = Iota(0, made), "order")
      \cup If(SubSeq(r.d, 1, r.q) = T /\ (IF r.x = 1 THEN Len(r.d) = r.q + made /\ NoDup(r.d) /\ Range2(r.d) = Range2(T) \cup Range2(C)
                                           ELSE Len(r.d) = r.q), "disp")
      \cup If(r.lk = 0, "link") \cup If(r.bad = 0, "early")

Bad(r) == CASE r.t = "E" -> BadE(r) [] r.t = "K" -> BadK(r)
            [] r.t \in {"S", "L", "B", "C", "I"} /\ "z" \in DOMAIN r -> {"crash-" \o r.z}
            [] r.t = "S" -> BadS(r) [] r.t = "L" -> BadL(r) [] r.t = "X" -> BadX(r)
            [] r.t = "B" -> BadB(r) [] r.t = "C" -> BadC(r) [] OTHER -> {"crash-unknown"}

Inv == LET bad == Bad(Rec) IN bad = {} \/ Report(bad)
=============================================================================
