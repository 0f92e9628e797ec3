------------------------------ MODULE FastMod ------------------------------
(***************************************************************************)
(* The multiplication-based modulo at a scaled word size of W bits, and why   *)
(* finitely many hash values settle it for all of them.                      *)
(*  Exact:    with the reciprocal M = ceil(2^2W / d), d * (M*a mod 2^2W) >> W2 *)
(*            is a mod d for every a of W bits.                              *)
(*  Decisive: whatever the table entry m, if the result is right at the       *)
(*            boundary values Probe(d) it is right for every a.              *)
(* The driver num.cpp probes exactly the values of Probe for the real W = 32. *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANT W
N == 2^W
NN == 2^(2 * W)
VARIABLES d, m
FM(a) == (d * ((m * a) % NN)) \div NN
M(x) == (NN + x - 1) \div x
Top == (N - 1) \div d
Probe == {a \in 0..N - 1 : \/ a \in {0, 1, 2, N - 1, N - 2, N - 3}
                           \/ \E q \in {1, 2, 3, Top, Top - 1, Top \div 2, Top \div 3 + 1} : a \in {q * d - 1, q * d, q * d + 1}}
Init == d \in 2..N - 1 /\ m = 0
Next == m < NN - 1 /\ m' = m + 1 /\ d' = d
Spec == Init /\ [][Next]_<<d, m>>
Exact == m = M(d) => \A a \in 0..N - 1 : FM(a) = a % d
Decisive == (\A a \in Probe : FM(a) = a % d) => \A a \in 0..N - 1 : FM(a) = a % d
=============================================================================
