------------------------------- MODULE Limbs -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32-bit integers: little-endian sequences of *)
(* 15-bit limbs, compared and combined limb by limb.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 32768
IsNum(a) == Len(a) > 0 /\ \A i \in 1..Len(a) : a[i] \in 0..B - 1
Limb(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
MaxL(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE Cmp(_, _, _)
\* -1, 0, 1 comparing the limbs i, i-1, ..., 1
Cmp(a, b, i) == IF i = 0 THEN 0 ELSE IF Limb(a, i) < Limb(b, i) THEN -1 ELSE IF Limb(a, i) > Limb(b, i) THEN 1 ELSE Cmp(a, b, i - 1)
Lt(a, b) == Cmp(a, b, MaxL(a, b)) = -1
Le(a, b) == Cmp(a, b, MaxL(a, b)) <= 0
Eq(a, b) == Cmp(a, b, MaxL(a, b)) = 0

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > MaxL(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET t == Limb(a, i) + Limb(b, i) + c IN <<t % B>> \o AddC(a, b, i + 1, t \div B)
Add(a, b) == AddC(a, b, 1, 0)

RECURSIVE MulS(_, _, _, _)
\* a * s + carry for a single limb s
MulS(a, s, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET t == a[i] * s + c IN <<t % B>> \o MulS(a, s, i + 1, t \div B)
RECURSIVE Mul(_, _)
Mul(a, b) == IF b = <<>> THEN <<0>> ELSE Add(MulS(a, b[1], 1, 0), IF Len(b) = 1 THEN <<0>> ELSE <<0>> \o Mul(a, Tail(b)))

\* r is the remainder of h by d, certified by the quotient q
IsRem(h, d, q, r) == Lt(r, d) /\ Eq(Add(Mul(q, d), r), h)
Zero(a) == \A i \in 1..Len(a) : a[i] = 0
=============================================================================
