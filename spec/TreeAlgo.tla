------------------------------ MODULE TreeAlgo ------------------------------
(***************************************************************************)
(* Binary search trees as link structures over nodes 1..n with two headers   *)
(* n+1 and n+2: what makes a structure a tree, what it denotes, and what      *)
(* each public node algorithm does to it.  A structure is a record            *)
(*    [p, l, r, x : sequences over nodes and headers]   (0: null)             *)
(***************************************************************************)
EXTENDS OrdOps

Links(p, l, r, x) == [p |-> p, l |-> l, r |-> r, x |-> x]
\* in-order sequence below node i whose parent must be par; <<-1>> marks an inconsistency
RECURSIVE Inorder(_, _, _, _, _)
Inorder(S, i, par, n, fuel) ==
  IF i = 0 THEN <<>>
  ELSE IF i < 1 \/ i > n \/ fuel = 0 THEN <<-1>>
  ELSE IF S.p[i] # par THEN <<-1>>
  ELSE Inorder(S, S.l[i], i, n, fuel - 1) \o <<i>> \o Inorder(S, S.r[i], i, n, fuel - 1)
TSeq(S, h, n) == Inorder(S, S.p[h], h, n, n)
\* a header is consistent when it knows the root and the extreme nodes
HeaderOK(S, h, q) == IF q = <<>> THEN S.p[h] = 0 /\ S.l[h] = h /\ S.r[h] = h
                     ELSE S.l[h] = q[1] /\ S.r[h] = q[Len(q)]
TreeOK(S, h, n) == LET q == TSeq(S, h, n) IN NoDup(q) /\ (\A i \in DOMAIN q : q[i] > 0) /\ HeaderOK(S, h, q)
RECURSIVE Height(_, _)
Height(S, i) == IF i = 0 THEN 0 ELSE LET a == Height(S, S.l[i]) b == Height(S, S.r[i]) IN 1 + (IF a > b THEN a ELSE b)
RECURSIVE Black(_, _)       \* black height, -1 if it differs
Black(S, i) == IF i = 0 THEN 1 ELSE LET a == Black(S, S.l[i]) b == Black(S, S.r[i]) IN
               IF a = -1 \/ a # b THEN -1 ELSE a + (IF S.x[i] = 1 THEN 0 ELSE 1)
RECURSIVE Depth(_, _, _)
Depth(S, i, h) == IF S.p[i] = h THEN 0 ELSE 1 + Depth(S, S.p[i], h)
RECURSIVE Leftmost(_, _)
Leftmost(S, i) == IF S.l[i] = 0 THEN i ELSE Leftmost(S, S.l[i])
RECURSIVE Rightmost(_, _)
Rightmost(S, i) == IF S.r[i] = 0 THEN i ELSE Rightmost(S, S.r[i])
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
\* the greatest height with (4/3)^height <= size
RECURSIVE HAl(_, _, _)
HAl(num, den, m) == IF num * 4 > m * den * 3 THEN 0 ELSE 1 + HAl(num * 4, den * 3, m)
HAlphaOf(m) == HAl(1, 1, m)

\* balance of each kind of tree (q: its sequence, not empty; rt: its root)
BalanceOK(kd, S, rt, q, pr, m) ==
  LET In == Range2(q) IN
  CASE kd = "RB" -> S.x[rt] = 0 /\ Black(S, rt) # -1 /\ \A i \in In : S.x[i] \in {0, 1} /\ (S.x[i] = 1 => (S.l[i] = 0 \/ S.x[S.l[i]] = 0) /\ (S.r[i] = 0 \/ S.x[S.r[i]] = 0))
    [] kd = "AVL" -> \A i \in In : S.x[i] \in -1..1 /\ S.x[i] = Height(S, S.r[i]) - Height(S, S.l[i])
    [] kd = "TR" -> \A i \in In : (S.l[i] = 0 \/ pr[i] <= pr[S.l[i]]) /\ (S.r[i] = 0 \/ pr[i] <= pr[S.r[i]])
    [] kd = "SG" -> Height(S, rt) - 1 <= HAlphaOf(m) + 1
    [] OTHER -> TRUE

\* exchanging two nodes in the drawing of the structure: every link that led to one leads to the other
Sw(i, x, y) == IF i = x THEN y ELSE IF i = y THEN x ELSE i
Relabel(S, x, y) ==
  LET f(s) == [i \in DOMAIN s |-> Sw(s[Sw(i, x, y)], x, y)]
      g(s) == [i \in DOMAIN s |-> s[Sw(i, x, y)]]
  IN Links(f(S.p), f(S.l), f(S.r), g(S.x))
\* where the subtrees of a structure hang: leaf position of a new node at in-order position k (0-based)
LeafIns(S, h, q, k, x) ==
  LET up == IF q = <<>> THEN h ELSE IF k > 0 /\ S.r[q[k]] = 0 THEN q[k] ELSE q[k + 1]
      right == q # <<>> /\ k > 0 /\ S.r[q[k]] = 0
  IN Links([S.p EXCEPT ![x] = up, ![h] = IF q = <<>> THEN x ELSE @],
           IF q = <<>> THEN [S.l EXCEPT ![h] = x, ![x] = 0] ELSE IF right THEN [S.l EXCEPT ![x] = 0] ELSE [S.l EXCEPT ![up] = x, ![h] = IF k = 0 THEN x ELSE @, ![x] = 0],
           IF q = <<>> THEN [S.r EXCEPT ![h] = x, ![x] = 0] ELSE IF right THEN [S.r EXCEPT ![up] = x, ![h] = IF k = Len(q) THEN x ELSE @, ![x] = 0] ELSE [S.r EXCEPT ![x] = 0, ![h] = IF k = Len(q) THEN x ELSE @],
           S.x)
Unchanged(S, T, nodes) == \A i \in nodes : S.p[i] = T.p[i] /\ S.l[i] = T.l[i] /\ S.r[i] = T.r[i] /\ S.x[i] = T.x[i]
PosIn(q, x) == (CHOOSE i \in DOMAIN q : q[i] = x) - 1
=============================================================================
