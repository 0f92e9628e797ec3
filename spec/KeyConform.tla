----------------------------- MODULE KeyConform -----------------------------
(***************************************************************************)
(* One record per operation: c, C = objects before and after in iteration order,  *)
(* r/n = what it named and counted, e = class of each representation, R = key of   *)
(* each object; b = bucket the container reports for each representation, lb =     *)
(* bucket in which each object of C was found by local traversal; for every          *)
(* representation: fi = object found, cn = count, er = objects of its equal range;   *)
(* hs = 1 if the hash function gave the same value twice for each representation.    *)
(***************************************************************************)
EXTENDS Records, KeyOps
If(c, x) == IF c THEN {} ELSE {x}
Crash(r) == "z" \in DOMAIN r
BadD(r) ==
  LET R == r.k E == r.e kd == r.kd IN
  IF ~Enabled(r.o, r.g, r.c, R, E, kd) THEN {"notenabled"}
  ELSE If(Rng(r.C) = After(r.o, r.g, r.c, R, E, kd) /\ Len(r.C) = Cardinality(Rng(r.C)), "eff")
       \cup If(r.r \in Names(r.o, r.g, r.c, R, E, kd), "ret") \cup If(r.n = Num(r.o, r.g, r.c, R, E, kd), "num")
       \cup If(\A q \in DOMAIN E : LET S == Class(r.C, q, R, E) IN
                 (IF S = {} THEN r.fi[q] = 0 ELSE r.fi[q] \in S) /\ r.cn[q] = Cardinality(S) /\ Rng(r.er[q]) = S, "lookup")
       \cup If(\A p, q \in DOMAIN E : E[p] = E[q] => r.b[p] = r.b[q], "bucket")
       \cup If(\A i \in DOMAIN r.C : r.lb[i] = r.b[R[r.C[i]]], "place")
       \cup If(r.hs = 1, "hash")
Bad(r) == IF Crash(r) THEN {"crash-" \o r.z} ELSE CASE r.t = "D" -> BadD(r) [] OTHER -> {"crash-unknown"}
Inv == LET bad == Bad(Rec) IN bad = {} \/ Report(bad)
=============================================================================
