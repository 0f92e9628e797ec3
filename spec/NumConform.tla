---------------------------- MODULE NumConform ----------------------------
(***************************************************************************)
(* Bucket arithmetic of the real containers: every recorded bucket index and *)
(* suggested bucket count against the rules of HashOps (Home), on the full   *)
(* machine-word range.                                                      *)
(*  U: n, lo, up = suggested counts; s = all the supported counts, ascending *)
(*  P: m = mode, bc = bucket count, sp = split, h = hash, w = the value that  *)
(*     is reduced (the hash; fastmod: its halves added modulo 2^32), q = w    *)
(*     div bc, x = w mod bc as computed by plain arithmetic, b = bucket()     *)
(*  W: a bucket array of the size suggested by the container is accepted      *)
(***************************************************************************)
EXTENDS Records, Limbs
If(c, a) == IF c THEN {} ELSE {a}
Crash(r) == "z" \in DOMAIN r

Ascending(s) == Len(s) > 0 /\ Lt(<<0>>, s[1]) /\ \A i \in 1..Len(s) - 1 : Lt(s[i], s[i + 1])
FirstGe(s, n) == IF \E i \in 1..Len(s) : Le(n, s[i]) THEN s[CHOOSE i \in 1..Len(s) : Le(n, s[i]) /\ \A j \in 1..i - 1 : Lt(s[j], n)] ELSE s[Len(s)]
FirstGt(s, n) == IF \E i \in 1..Len(s) : Lt(n, s[i]) THEN s[CHOOSE i \in 1..Len(s) : Lt(n, s[i]) /\ \A j \in 1..i - 1 : Le(s[j], n)] ELSE s[Len(s)]
BadU(r) == IF ~Ascending(r.s) THEN {"table"} ELSE If(Eq(r.lo, FirstGe(r.s, r.n)), "lower") \cup If(Eq(r.up, FirstGt(r.s, r.n)), "upper")

\* h = h0 + 2^32 h1, both halves below 2^32, and w their sum modulo 2^32
P32 == <<0, 0, 4>>
IsFold(h, h0, h1, w) == /\ Lt(h0, P32) /\ Lt(h1, P32) /\ Lt(w, P32) /\ Eq(Add(h0, Mul(h1, P32)), h)
                        /\ (Eq(Add(h0, h1), w) \/ Eq(Add(h0, h1), Add(w, P32)))
RECURSIVE IsPow2(_)
IsPow2(a) == IF Len(a) = 0 THEN FALSE ELSE IF a[1] = 0 THEN IsPow2(Tail(a)) ELSE a[1] \in {2^k : k \in 0..14} /\ Zero(Tail(a))
BadP(r) ==
  IF ~IsRem(r.w, r.bc, r.q, r.x) THEN {"crash-witness"} ELSE
  CASE r.m = "mod" -> If(Eq(r.w, r.h) /\ Eq(r.b, r.x), "position")
    [] r.m = "p2"  -> If(Eq(r.w, r.h) /\ IsPow2(r.bc) /\ Eq(r.b, r.x), "position")
    \* linear hashing: buckets from the split on are not split yet and share the bucket of the lower half
    [] r.m = "inc" -> If(Eq(r.w, r.h) /\ IsPow2(r.bc) /\ Le(r.sp, r.bc) /\ (Le(r.bc, Mul(r.sp, <<2>>)) \/ Eq(r.bc, <<1>>))
                         /\ IF Lt(r.x, r.sp) THEN Eq(r.b, r.x) ELSE Eq(Add(r.b, r.hb), r.x) /\ (Eq(Mul(r.hb, <<2>>), r.bc) \/ Eq(r.bc, <<1>>)), "position")
    [] r.m = "fm"  -> If(IsFold(r.h, r.h0, r.h1, r.w) /\ Eq(r.b, r.x), "position")
    [] OTHER -> {"crash-unknown"}
BadW(r) == If(Eq(r.n, r.bc), "accepted")

Bad(r) == IF Crash(r) THEN {"crash-" \o r.z} ELSE CASE r.t = "U" -> BadU(r) [] r.t = "P" -> BadP(r) [] r.t = "W" -> BadW(r) [] OTHER -> {"crash-unknown"}
Inv == LET bad == Bad(Rec) IN bad = {} \/ Report(bad)
=============================================================================
