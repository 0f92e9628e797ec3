---------------------------- MODULE RingConform ----------------------------
(***************************************************************************)
(* One record per call of a ring or chain algorithm on user nodes: a, ap =    *)
(* next and previous links before, b, bp = after, r = results, d = disposed,   *)
(* w = number of node accesses.                                               *)
(***************************************************************************)
EXTENDS Records, RingOps
If(c, x) == IF c THEN {} ELSE {x}
Crash(r) == "z" \in DOMAIN r

\* previous links expected from next links (doubly linked)
PrevOk(r, f, free) == \A j \in 1..Len(f) : j \in free \/
                        (IF \E i \in 1..Len(f) : i \notin free /\ f[i] = j THEN r.bp[j] = (CHOOSE i \in 1..Len(f) : i \notin free /\ f[i] = j)
                         ELSE f[j] # 0 \/ r.bp[j] = 0)
\* after an exception of a predicate the same nodes are linked, in some order
Throw(r) ==
  LET p == r.g[1] cl == r.k = "cl" ring == r.k # "ls"
      S == Orbit(r.a, p)
      N == Rng(S)
  IN  If(\A i \in 1..Len(r.a) : i \in N \/ r.b[i] = r.a[i], "outside")
      \cup If(\A i \in 1..Len(r.b) : r.b[i] >= 0, "next")
      \cup (IF ~\A i \in 1..Len(r.b) : r.b[i] >= 0 THEN {} ELSE
            LET q == IF cl THEN r.g[2] ELSE p S2 == Orbit(r.b, q) IN
            If(Len(S2) = Len(S) /\ Rng(S2) = N /\ r.b[S2[Len(S2)]] = (IF ring THEN q ELSE 0), "throw")
            \cup If(~cl \/ PrevOk(r, r.b, {}), "previous"))
BadA(r) ==
  LET cl == r.k = "cl"
      const == r.o \in (IF cl THEN ConstCL ELSE ConstSL)
      work == If(~const \/ r.w <= 30, "work")
  IN IF r.o \in {"init", "inith"} THEN
       LET p == r.g[1] v == IF r.o = "init" \/ r.k = "ls" THEN 0 ELSE p IN
       If(r.b = [r.a EXCEPT ![p] = v], "next") \cup If(~cl \/ r.bp = [r.ap EXCEPT ![p] = v], "previous") \cup If(r.r = <<1>>, "result") \cup work
     ELSE IF r.o = "part" /\ r.g[4] > 0 THEN If(r.r = <<-1>>, "result") \cup Throw(r)
     ELSE LET e == Effect(r.k, r.o, r.g, r.a) IN
       If(\A i \in 1..Len(r.a) : i \in e.free \/ r.b[i] = e.f[i], "next")
       \cup If(~cl \/ PrevOk(r, e.f, e.free), "previous")
       \cup If(r.r = e.r, "result") \cup If(r.d = e.d, "disposed") \cup work

Bad(r) == IF Crash(r) THEN {"crash-" \o r.z} ELSE CASE r.t = "A" -> BadA(r) [] OTHER -> {"crash-unknown"}
Inv == LET bad == Bad(Rec) IN bad = {} \/ Report(bad)
=============================================================================
