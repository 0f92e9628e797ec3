----------------------------- MODULE TreeAlgoMC -----------------------------
(***************************************************************************)
(* Model of the link structures: two trees over N nodes grown by leaf         *)
(* insertion, reshaped by rotation and by exchanging nodes.  The structural    *)
(* definitions agree with their meaning on sequences.                        *)
(***************************************************************************)
EXTENDS TreeAlgo, TLC
CONSTANT N
VARIABLE S
All == 1..(N + 2)
H(h) == N + h
Q(T, h) == TSeq(T, H(h), N)
Free(T) == { x \in 1..N : T.p[x] = 0 }
Zero == [i \in All |-> 0]
Init == S = Links(Zero, [i \in All |-> IF i > N THEN i ELSE 0], [i \in All |-> IF i > N THEN i ELSE 0], Zero)
\* rotation at node x with its left child y
Rotated(T, x) ==
  LET y == T.l[x] b == T.r[y] u == T.p[x] IN
  Links([T.p EXCEPT ![y] = u, ![x] = y, ![IF b = 0 THEN x ELSE b] = IF b = 0 THEN y ELSE x, ![IF u > N THEN u ELSE x] = y],
        IF u <= N /\ T.l[u] = x THEN [T.l EXCEPT ![x] = b, ![u] = y] ELSE [T.l EXCEPT ![x] = b],
        IF u <= N /\ T.r[u] = x THEN [T.r EXCEPT ![y] = x, ![u] = y] ELSE [T.r EXCEPT ![y] = x], T.x)
Next == \/ \E h \in 1..2, x \in Free(S) : \E k \in 0..Len(Q(S, h)) : S' = LeafIns(S, H(h), Q(S, h), k, x)
        \/ \E x, y \in 1..N : x # y /\ S.p[x] # 0 /\ S' = Relabel(S, x, y)
        \/ \E x \in 1..N : S.p[x] # 0 /\ S.l[x] # 0 /\ S' = Rotated(S, x)
Spec == Init /\ [][Next]_S
Wf == \A h \in 1..2 : TreeOK(S, H(h), N)
Disjoint == Range2(Q(S, 1)) \cap Range2(Q(S, 2)) = {} /\ Range2(Q(S, 1)) \cup Range2(Q(S, 2)) = 1..N \ Free(S)
Laws == \A h \in 1..2 :
  LET q == Q(S, h) IN
  /\ \A x \in Free(S) : \A k \in 0..Len(q) : LET T == LeafIns(S, H(h), q, k, x) IN
        TreeOK(T, H(h), N) /\ Q(T, h) = Ins(q, k, x) /\ Q(T, 3 - h) = Q(S, 3 - h) /\ T.l[x] = 0 /\ T.r[x] = 0
  /\ \A x \in Range2(q) : \A y \in 1..N : LET T == Relabel(S, x, y) IN
        \A k \in 1..2 : TreeOK(T, H(k), N) /\ Q(T, k) = Swapped(Q(S, k), x, y) /\ Relabel(T, x, y) = S
  /\ \A x \in Range2(q) : S.l[x] # 0 => LET T == Rotated(S, x) IN TreeOK(T, H(h), N) /\ Q(T, h) = q
  /\ \A x \in Range2(q) : Depth(S, x, H(h)) < Height(S, S.p[H(h)])
  /\ (q # <<>> => Leftmost(S, S.p[H(h)]) = q[1] /\ Rightmost(S, S.p[H(h)]) = q[Len(q)] /\ Height(S, S.p[H(h)]) >= Log2(Len(q)) + 1)
=============================================================================
