------------------------------ MODULE OrdModel ------------------------------
(***************************************************************************)
(* The state machine of two ordered containers over a pool of objects.     *)
(* TLC explores it exhaustively for small pools and checks the properties  *)
(* users rely on, stated independently of the effect operators of OrdOps.  *)
(***************************************************************************)
EXTENDS OrdOps, TLC
CONSTANTS Objs,      \* objects 1..n
          KeyOf,     \* sequence of keys
          Uniq       \* TRUE: only operations of unique containers
VARIABLES A, B, op, pre
vars == <<A, B, op, pre>>

Pool == Objs \ (Range2(A) \cup Range2(B))
Keys == 0..4
Few == {<<>>} \cup { <<x>> : x \in Pool } \cup { <<x, y>> : x, y \in Pool }
UqOps ==
  { <<"insu", <<e>> >> : e \in Pool } \cup { <<"inuh", <<p, e>> >> : p \in 0..Len(A), e \in Pool }
  \cup { <<"inur", t>> : t \in { u \in Few : NoDup(u) } }
  \cup { <<"chk", <<k>> >> : k \in Keys } \cup { <<"chkh", <<p, k>> >> : p \in 0..Len(A), k \in Keys }
  \cup { <<"chc", <<e>> >> : e \in Pool } \cup { <<"chch", <<p, e>> >> : p \in 0..Len(A), e \in Pool }
  \cup { <<"merge", <<0>> >> } \cup { <<"ctr", <<0>> \o t>> : t \in { u \in Few : NoDup(u) } }
EqOps ==
  { <<"inse", <<e>> >> : e \in Pool } \cup { <<"insh", <<p, e>> >> : p \in 0..Len(A), e \in Pool }
  \cup { <<"insr", t>> : t \in { u \in Few : NoDup(u) } }
  \cup { <<"insb", <<p, e>> >> : p \in 0..Len(A), e \in Pool }
  \cup { <<"merge", <<1>> >> } \cup { <<"ctr", <<1>> \o t>> : t \in { u \in Few : NoDup(u) } }
Common ==
  { <<"era", <<p, d>> >> : p \in 0..(Len(A) - 1), d \in 0..2 }
  \cup { <<"eras", <<p, q, d>> >> : p \in 0..Len(A), q \in 0..Len(A), d \in 0..2 }
  \cup { <<"erak", <<k, d>> >> : k \in Keys, d \in 0..2 }
  \cup { <<"clr", <<d>> >> : d \in 0..2 }
  \cup { <<"lk", <<z, k>> >> : z \in {0, 1, 2, 3, 4, 6}, k \in Keys }
  \cup { <<"lk", <<5, k1, k2, f>> >> : k1 \in Keys, k2 \in Keys, f \in 0..3 }
  \cup { <<"swap", <<>> >>, <<"mva", <<>> >>, <<"mvc", <<>> >>, <<"dtor", <<>> >>, <<"ulm", <<>> >> }
  \cup { <<"rpn", <<p, e>> >> : p \in 0..(Len(A) - 1), e \in Pool }
  \cup { <<o, <<p>> >> : o \in {"rmn", "rebs", "spu"}, p \in 0..(Len(A) - 1) }
  \cup { <<o, <<x>> >> : o \in {"unl", "del"}, x \in Objs }
  \cup { <<"swn", <<x, y>> >> : x, y \in Range2(A) \cup Range2(B) }
  \cup { <<"spd", <<k>> >> : k \in Keys } \cup { <<"reb", <<>> >> }
Ops == UqOps \cup Common \cup (IF Uniq THEN {} ELSE EqOps)

IdleOp == <<"init", <<>>, {}, 0, <<>>, <<>> >>
Init == A = <<>> /\ B = <<>> /\ op = IdleOp /\ pre = <<A, B>>
Step(x) == /\ Enabled(x[1], x[2], A, B, KeyOf)
           /\ LET e == Eff(x[1], x[2], A, B, KeyOf)
              IN  A' = e.a /\ B' = e.b /\ op' = <<x[1], x[2], e.r, e.n, e.d, e.c>> /\ pre' = <<A, B>>
Next == \E x \in Ops : Step(x)
Spec == Init /\ [][Next]_vars

\* ---- properties.  K(x) is the key of x
K(x) == KeyOf[x]
PosIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
BeforeIn(s, x, y) == PosIn(s, x) < PosIn(s, y)
Keeps(s, t) == \A x, y \in Range2(s) \cap Range2(t) : BeforeIn(s, x, y) => BeforeIn(t, x, y)
O == op[1]
G == op[2]
Elem == IF O \in {"inse", "insu", "chc"} THEN G[1] ELSE G[2]
InOrder(s) == \A i, j \in DOMAIN s : i < j => K(s[i]) <= K(s[j])
TypeOK == Range2(A) \subseteq Objs /\ Range2(B) \subseteq Objs
NoDuplicates == NoDup(A \o B)
AlwaysSorted == InOrder(A) /\ InOrder(B)                                           \* C04
AlwaysUnique == Uniq => \A i, j \in DOMAIN A : K(A[i]) = K(A[j]) => i = j          \* C04
\* a unique insertion succeeds exactly when no equivalent is present, and then only adds the element
UniqueInsertion == O \in {"insu", "inuh", "chc", "chch"} =>
   LET blockers == { x \in Range2(pre[1]) : K(x) = K(Elem) } IN
   /\ B = pre[2]
   /\ (IF blockers = {} THEN Range2(A) = Range2(pre[1]) \cup {Elem} /\ Keeps(pre[1], A) /\ op[3] = {Elem} /\ op[4] \in {1, NONE}
       ELSE A = pre[1] /\ op[3] = blockers /\ op[4] \in {0, NONE})
\* C22: a check alone changes nothing; check + commit = insertion
CheckOnly == O \in {"chk", "chkh"} => A = pre[1] /\ B = pre[2] /\ (op[4] = 0) = (\E x \in Range2(A) : K(x) = G[Len(G)])
\* insertion without hint goes after all equivalents; with a hint as close to it as possible
EqualInsertion == O \in {"inse", "insh"} =>
   LET q(s) == PosIn(s, Elem)
       valid == { p \in 0..Len(pre[1]) : InOrder(Ins(pre[1], p, Elem)) }
       d(p) == IF p > G[1] THEN p - G[1] ELSE G[1] - p
   IN /\ Range2(A) = Range2(pre[1]) \cup {Elem} /\ Keeps(pre[1], A) /\ B = pre[2]
      /\ O = "inse" => \A y \in Range2(pre[1]) : K(y) = K(Elem) => BeforeIn(A, y, Elem)
      /\ O = "insh" => \A p \in valid : d(q(A) - 1) <= d(p)
Erasures == {"era", "eras", "erak", "clr", "rmn", "unl", "del", "ulm", "dtor"}
ErasureKeepsRest == O \in Erasures => Keeps(pre[1], A) /\ Keeps(pre[2], B) /\ Range2(A) \subseteq Range2(pre[1])
KeyErasure == O = "erak" => /\ \A x \in Range2(pre[1]) : (x \in Range2(A)) = (K(x) # G[1])
                            /\ op[4] = Len(pre[1]) - Len(A)
\* C17: the disposer sees exactly the removed objects, once, in container order
Disposed == O \in {"era", "eras", "erak", "clr"} =>
   LET gone == Minus(pre[1], A) IN IF G[Len(G)] = 0 THEN op[5] = <<>> ELSE op[5] = gone
Next1(s, x) == LET i == PosIn(s, x) IN IF i < Len(s) THEN s[i + 1] ELSE 0
ErasureReturnsNext == (O = "era" => op[3] = { Next1(pre[1], pre[1][G[1] + 1]) })
                      /\ (O = "eras" => op[3] = { At0(pre[1], G[2]) })
\* C05: the definitions of the bounds
LookupDefs == O = "lk" => /\ A = pre[1] /\ B = pre[2]
   /\ LET first(P(_)) == LET S == { i \in DOMAIN A : P(A[i]) } IN IF S = {} THEN 0 ELSE A[CHOOSE i \in S : \A j \in S : i <= j]
          ge(k) == first(LAMBDA x : K(x) >= k)
          gt(k) == first(LAMBDA x : K(x) > k)
          eq(k) == first(LAMBDA x : K(x) = k)
      IN CASE G[1] = 0 -> op[3] = {eq(G[2])}
           [] G[1] = 1 -> op[3] = {ge(G[2])}
           [] G[1] = 2 -> op[3] = {gt(G[2])}
           [] G[1] = 3 -> op[4] = Cardinality({ i \in DOMAIN A : K(A[i]) = G[2] })
           [] G[1] = 4 -> op[3] = {ge(G[2])} /\ op[4] = gt(G[2])
           [] G[1] = 5 -> op[3] = { IF G[4] % 2 = 1 THEN ge(G[2]) ELSE gt(G[2]) } /\ op[4] = (IF G[4] >= 2 THEN gt(G[3]) ELSE ge(G[3]))
           [] OTHER -> TRUE
\* C04: merging
MergeEqual == O = "merge" /\ G[1] = 1 =>
   /\ B = <<>> /\ Range2(A) = Range2(pre[1]) \cup Range2(pre[2]) /\ Keeps(pre[1], A) /\ Keeps(pre[2], A)
   /\ \A x \in Range2(pre[1]), y \in Range2(pre[2]) : K(x) = K(y) => BeforeIn(A, x, y)
MergeUnique == O = "merge" /\ G[1] = 0 =>
   /\ Range2(A) \cup Range2(B) = Range2(pre[1]) \cup Range2(pre[2])
   /\ Range2(pre[1]) \subseteq Range2(A) /\ Keeps(pre[1], A) /\ Keeps(pre[2], B) /\ Keeps(pre[2], A)
   /\ \A y \in Range2(pre[2]) :
        (y \in Range2(A)) = ( /\ \A x \in Range2(pre[1]) : K(x) # K(y)
                              /\ \A z \in Range2(pre[2]) : K(z) = K(y) => ~BeforeIn(pre[2], z, y) )
Transfer == (O \in {"swap", "mva"} => A = pre[2] /\ B = pre[1]) /\ (O = "mvc" => op[6] = pre[1] /\ A = pre[1])
Inert == O \in {"spu", "spd", "reb", "rebs"} => A = pre[1] /\ B = pre[2]
Inv == TypeOK /\ NoDuplicates /\ AlwaysSorted /\ AlwaysUnique /\ UniqueInsertion /\ CheckOnly /\ EqualInsertion
       /\ ErasureKeepsRest /\ KeyErasure /\ Disposed /\ ErasureReturnsNext /\ LookupDefs /\ MergeEqual /\ MergeUnique
       /\ Transfer /\ Inert
=============================================================================
