----------------------------- MODULE AnyConform -----------------------------
(***************************************************************************)
(* One record per operation on one of many containers of different kinds that  *)
(* share a pool of objects with a single any-hook: c, C = contents before and   *)
(* after in iteration order, R = reverse iteration (kinds with it), l = link    *)
(* flags (-1: not available), sz = sizes, cn = count of every key 1..nk in      *)
(* every container with keys, fi = object found for it (0: none), ir = object   *)
(* whose iterator the operation returned, bad = elements disposed while linked. *)
(***************************************************************************)
EXTENDS Records, AnyOps
If(c, x) == IF c THEN {} ELSE {x}
B2I(b) == IF b THEN 1 ELSE 0
Crash(r) == "z" \in DOMAIN r
Same(kk, s, t, K) == IF kk \in {"h", "u"} THEN Len(s) = Len(t) /\ Rng(s) = Rng(t) /\ Grouped(s, K) ELSE s = t
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Count(s, q, K) == Cardinality({i \in 1..Len(s) : K[s[i]] = q})
BadY(r) ==
  LET K == r.k kd == r.kd IN
  IF ~Enabled(r.o, r.g, r.c, K, kd) THEN {"notenabled"}
  ELSE LET e == Effect(r.o, r.g, r.c, K, kd) IN
       If(\A k \in DOMAIN kd : Same(kd[k], r.C[k], e[k], K), "eff")
       \cup If(\A k \in DOMAIN kd : r.R[k] \in {<<-1>>, Rev(r.C[k])}, "rev")
       \cup If(\A x \in DOMAIN K : r.l[x] \in {-1, B2I(Where(e, x) # {})}, "link")
       \cup If(r.sz = [k \in DOMAIN kd |-> Len(e[k])], "size")
       \cup If(\A k \in DOMAIN kd : r.cn[k] = <<>> \/ r.cn[k] = [q \in 1..r.nk |-> Count(e[k], q, K)], "lookup")
       \cup If(\A k \in DOMAIN kd : r.fi[k] = <<>> \/ \A q \in 1..r.nk : IF r.fi[k][q] = 0 THEN Count(e[k], q, K) = 0 ELSE r.fi[k][q] \in Rng(e[k]) /\ K[r.fi[k][q]] = q, "lookup")
       \cup If(r.bad = 0, "early")
Bad(r) == IF Crash(r) THEN {"crash-" \o r.z} ELSE CASE r.t = "Y" -> BadY(r) [] OTHER -> {"crash-unknown"}
Inv == LET bad == Bad(Rec) IN bad = {} \/ Report(bad)
=============================================================================
