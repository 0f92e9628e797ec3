------------------------------- MODULE RingMC -------------------------------
(***************************************************************************)
(* State machine of N nodes under the ring or chain operations: every state   *)
(* stays a set of disjoint rings or chains, and the effects obey the laws that *)
(* follow from their meaning, stated without reference to their definitions.  *)
(***************************************************************************)
EXTENDS RingOps, TLC
CONSTANTS N, Kd
VARIABLE f
Nodes == 1..N
Circ == Kd # "ls"
E(o, g) == Effect(Kd, o, g, f)
EF(o, g, h) == Effect(Kd, o, g, h).f
Linked(x) == IF Circ THEN f[x] # 0 ELSE TRUE
Unlinked(x) == IF Circ THEN f[x] = 0 ELSE f[x] = 0 /\ \A i \in Nodes : f[i] # x
First(x) == \A i \in Nodes : f[i] # x
Set(e) == f' = [i \in Nodes |-> IF i \in e.free THEN 0 ELSE e.f[i]]
Init == f = [i \in Nodes |-> 0]
Next == \/ \E x \in Nodes : Unlinked(x) /\ Circ /\ f' = [f EXCEPT ![x] = x]
        \/ \E p, x \in Nodes : p # x /\ Linked(p) /\ Unlinked(x) /\ Set(E("lnka", <<p, x>>))
        \/ \E p \in Nodes : Circ /\ Linked(p) /\ Len(Orbit(f, p)) > 1 /\ Set(E("unlink", <<p>>))
        \/ \E p \in Nodes : (IF Circ THEN Linked(p) ELSE First(p)) /\ (Set(E("rev", <<p>>)) \/ Set(E("mvb", <<p, 1>>)) \/ Set(E("mvf", <<p, 2>>)))
        \/ \E p, x \in Nodes : Circ /\ Set(E("swap", <<p, x>>))
        \/ \E p, b \in Nodes : Linked(p) /\ Linked(b) /\ \E k \in 1..Len(Orbit(f, b)) :
             LET S == Orbit(f, b) e == S[k] mid == Rng(SubSeq(S, 2, k - 1)) IN
               p \notin mid /\ (Kd # "cl" \/ b # e) /\ (Kd = "cl" => p = b \/ p \notin Rng(SubSeq(S, 1, k - 1))) /\ Set(E("xfer", <<p, b, e>>))
Spec == Init /\ [][Next]_f

Wf(h) == \A i, j \in Nodes : (h[i] = h[j] /\ h[i] # 0 => i = j)
                          /\ (Circ /\ h[i] = 0 => \A k \in Nodes : h[k] # i)
Acyclic(h) == \A i \in Nodes : LET S == Orbit(h, i) IN h[S[Len(S)]] = 0
WellFormed == Wf(f) /\ (Circ \/ Acyclic(f))
Laws == \A p \in Nodes : (IF Circ THEN Linked(p) ELSE First(p)) =>
  LET S == Orbit(f, p) k == Len(S) - (IF Circ THEN 1 ELSE 0) IN
  /\ LET h == EF("rev", <<p>>, f) q == IF Circ THEN p ELSE S[Len(S)] IN EF("rev", <<q>>, h) = f
  /\ \A n \in 0..2 * k + 1 :
       LET h == EF("mvb", <<p, n>>, f) q == IF Circ THEN p ELSE (CHOOSE x \in Rng(S) : \A i \in Nodes : h[i] # x) IN
         /\ EF("mvf", <<q, n>>, h) = f
         /\ (k > 0 /\ n >= k => h = EF("mvb", <<p, n - k>>, f))
         \* n single steps
         /\ (n > 0 /\ Circ => h = EF("mvb", <<p, 1>>, EF("mvb", <<p, n - 1>>, f)))
         /\ Rng(Orbit(h, q)) = Rng(S)
  /\ E("count", <<p>>).r = <<Len(S)>>
  /\ (Circ => \A x \in Nodes : LET h == EF("swap", <<p, x>>, f) IN
        /\ EF("swap", <<p, x>>, h) = f
        /\ (f[x] # 0 => Len(Orbit(h, x)) = Len(S))
        /\ \A i \in Nodes : i \notin {p, x} /\ f[i] \notin {0, p, x} => h[i] = f[i])
  /\ (Kd # "cl" => \A b \in Nodes : Linked(b) /\ b # p /\ (IF Circ THEN b \notin Rng(S) ELSE First(b)) =>
        LET T == Orbit(f, b) h == EF("xferall", <<p, b>>, f) IN
          /\ Orbit(h, b) = <<b>> /\ Orbit(h, p) = <<p>> \o Tail(T) \o Tail(S))
  /\ (Kd = "cl" => \A b \in Nodes : Linked(b) /\ b # p /\ f[b] # p =>
        LET h == EF("xfer1", <<p, b>>, f) IN h[b] = p /\ h[PreOf(f, p)] = b /\ Len(Orbit(h, p)) = Len(S) + (IF b \in Rng(S) THEN 0 ELSE 1))
=============================================================================
