----------------------------- MODULE SeqModel -----------------------------
(***************************************************************************)
(* The state machine of two lists over a pool of objects.  TLC explores it *)
(* exhaustively for small pools and checks the properties users rely on,   *)
(* stated independently of the effect operators of SeqOps.                 *)
(***************************************************************************)
EXTENDS SeqOps, TLC
CONSTANTS Objs,      \* objects 1..n
          KeyOf,     \* sequence of keys
          AutoUnlink \* whether objects may unlink themselves
VARIABLES A, B, op, pre
vars == <<A, B, op, pre>>

Pool == Objs \ (Range2(A) \cup Range2(B))
\* sequences of at most two distinct pool objects
Few == {<<>>} \cup { <<x>> : x \in Pool } \cup { <<x, y>> : x, y \in Pool }
Ops ==
  { <<"ins", <<p, e>> >> : p \in 0..Len(A), e \in Pool }
  \cup { <<"insr", <<p>> \o t>> : p \in 0..Len(A), t \in { u \in Few : NoDup(u) } }
  \cup { <<"era", <<p, d>> >> : p \in 0..(Len(A) - 1), d \in 0..2 }
  \cup { <<"eras", <<p, q, d>> >> : p \in 0..Len(A), q \in 0..Len(A), d \in 0..2 }
  \cup { <<"clr", <<d>> >> : d \in 0..2 }
  \cup { <<"asg", <<d>> \o t>> : d \in 0..1, t \in { u \in Few : NoDup(u) } }
  \cup { <<"spl", <<p, q, r>> >> : p \in 0..Len(A), q \in 0..Len(B), r \in 0..Len(B) }
  \cup { <<"sspl", <<p, q, r>> >> : p \in 0..Len(A), q \in 0..Len(A), r \in 0..Len(A) }
  \cup { <<o, <<c>> >> : o \in {"merge", "sort"}, c \in 0..1 }
  \cup { <<"rev", <<>> >>, <<"swap", <<>> >>, <<"mva", <<>> >>, <<"mvc", <<>> >>, <<"dtor", <<>> >> }
  \cup { <<o, <<n>> >> : o \in {"shf", "shb"}, n \in 0..(2 * Len(A) + 1) }
  \cup { <<"unq", <<d, m>> >> : d \in 0..1, m \in 0..1 }
  \cup { <<"rmv", <<k, d>> >> : k \in Range2(KeyOf), d \in 0..1 }
  \cup { <<"rmi", f \o <<d>> >> : f \in [1..Len(A) -> {0, 1}], d \in 0..1 }
  \cup (IF AutoUnlink THEN { <<o, <<x>> >> : o \in {"unl", "del"}, x \in Objs } ELSE {})

IdleOp == <<"init", <<>> >>
Init == A = <<>> /\ B = <<>> /\ op = IdleOp /\ pre = <<A, B>>
Step(x) == /\ Enabled2(x[1], x[2], A, B, KeyOf)
           /\ LET e == Eff(x[1], x[2], A, B, KeyOf)
              IN  A' = e.a /\ B' = e.b /\ op' = <<x[1], x[2], e.r, e.d, e.c>> /\ pre' = <<A, B>>
Next == \E x \in Ops : Step(x)
Spec == Init /\ [][Next]_vars

\* ---- properties
TypeOK == Range2(A) \subseteq Objs /\ Range2(B) \subseteq Objs
NoDuplicates == NoDup(A \o B)                            \* C03: no object in two places
Perm(x, y) == Len(x) = Len(y) /\ Range2(x) = Range2(y)
Moves == {"spl", "sspl", "merge", "sort", "rev", "shf", "shb", "swap", "mva", "mvc"}
Conserved == op[1] \in Moves => Perm(A \o B, pre[1] \o pre[2])
\* relative order of x and y in s
BeforeIn(s, x, y) == PosOf(s, x) < PosOf(s, y)
StableSorted ==
  op[1] = "sort" => /\ SortedBy(A, KeyOf, op[2][1])
                    /\ \A x, y \in Range2(A) : KeyOf[x] = KeyOf[y] /\ BeforeIn(pre[1], x, y) => BeforeIn(A, x, y)
StableMerged ==
  op[1] = "merge" => /\ SortedBy(A, KeyOf, op[2][1])
                     /\ \A x, y \in Range2(A) : KeyOf[x] = KeyOf[y] /\ BeforeIn(pre[1] \o pre[2], x, y) => BeforeIn(A, x, y)
OrderKept(s, t) == \A x, y \in Range2(t) : BeforeIn(s, x, y) => BeforeIn(t, x, y)
RemovalKeepsOrder == op[1] \in {"era", "eras", "rmv", "rmi", "unq", "unl", "del"} => OrderKept(pre[1], A) /\ OrderKept(pre[2], B)
\* the disposer sees exactly the removed objects, once, in container order
Disposed == op[1] \in {"era", "eras", "clr", "rmv", "rmi", "unq"} =>
              LET D == IF op[1] \in {"clr", "unq"} THEN op[2][1] ELSE op[2][Len(op[2])]
                  gone == Minus(pre[1], A)
              IN  IF D = 0 THEN op[4] = <<>> ELSE op[4] = gone
UniqueKeepsFirst == op[1] = "unq" =>
   /\ \A p \in 1..(Len(A) - 1) : ~KEq(op[2][2], KeyOf[A[p]], KeyOf[A[p + 1]])
   /\ pre[1] # <<>> => A # <<>> /\ A[1] = pre[1][1]
Rotations == op[1] \in {"shf", "shb"} =>
   (IF op[1] = "shf" THEN RotB(A, op[2][1]) ELSE RotF(A, op[2][1])) = pre[1]
ReturnedPosition == op[1] \in {"era", "eras"} =>
   LET q == IF op[1] = "era" THEN op[2][1] + 1 ELSE op[2][2] IN op[3] = At0(pre[1], q)
\* a block spliced in is contiguous, in its old order, exactly before the designated element
Spliced == op[1] = "spl" =>
   LET x == Sub(pre[2], op[2][2], op[2][3]) IN
     /\ SubSeq(A, op[2][1] + 1, op[2][1] + Len(x)) = x
     /\ Minus(A, x) = pre[1] /\ Minus(pre[2], x) = B
Inv == TypeOK /\ NoDuplicates /\ Conserved /\ StableSorted /\ StableMerged /\ RemovalKeepsOrder /\ Disposed
       /\ UniqueKeepsFirst /\ Rotations /\ ReturnedPosition /\ Spliced
View == <<A, B, op, pre>>
=============================================================================
