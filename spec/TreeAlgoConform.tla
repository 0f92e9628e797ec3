--------------------------- MODULE TreeAlgoConform ---------------------------
(***************************************************************************)
(* One record per call of a tree algorithm on user nodes: p, l, r, x (links   *)
(* and colour or balance) and m (recorded maximum sizes) before, P, L, R, X,  *)
(* M afterwards, v = results, d = disposed.  The arguments g name nodes.      *)
(***************************************************************************)
EXTENDS Records, TreeAlgo
If(c, x) == IF c THEN {} ELSE {x}
B2I(b) == IF b THEN 1 ELSE 0
Crash(r) == "z" \in DOMAIN r

\* sequences afterwards of the tree(s) involved, as a function h -> sequence
Expect(r, Q) ==
  LET o == r.o
      g == r.g
      n == r.n
      K == r.ky
      h == g[1]
      at(x) == IF x = n + h THEN Len(Q[h]) ELSE PosIn(Q[h], x)
      one(k, s) == [Q EXCEPT ![k] = s]
  IN CASE o = "ieu" -> one(h, InsEq(Q[h], K, g[2]))
       [] o = "iel" -> one(h, Ins(Q[h], LB(Q[h], K, K[g[2]]), g[2]))
       [] o = "ieh" -> one(h, InsHint(Q[h], K, at(g[2]), g[3]))
       [] o = "insb" -> one(h, Ins(Q[h], at(g[2]), g[3]))
       [] o = "pub" -> one(h, Append(Q[h], g[2]))
       [] o = "puf" -> one(h, <<g[2]>> \o Q[h])
       [] o = "iuc" -> one(h, InsUq(Q[h], K, g[3]))
       [] o \in {"era", "unl"} -> one(h, Minus(Q[h], <<g[2]>>))
       [] o = "tru" -> IF Has(Q[h], K, K[g[3]]) THEN Q ELSE [Q EXCEPT ![h] = InsEq(@, K, g[3]), ![g[2]] = Minus(@, <<g[3]>>)]
       [] o = "tre" -> [Q EXCEPT ![h] = InsEq(@, K, g[3]), ![g[2]] = Minus(@, <<g[3]>>)]
       [] o \in {"rpn2", "rpn3"} -> one(h, Swapped(Q[h], g[2], g[3]))
       [] o \in {"swn2", "swn4"} -> [k \in 1..2 |-> Swapped(Q[k], g[2], g[4])]
       [] o = "swt" -> [Q EXCEPT ![g[1]] = Q[g[2]], ![g[2]] = Q[g[1]]]
       [] o \in {"clr", "drain", "inith"} -> one(h, <<>>)
       [] OTHER -> Q
ConstOps == {"qh", "qk", "qb", "qn"}
Splaying == {"spd", "skf", "skl", "sku", "ske", "skr", "skc", "skb", "spu"}

Results(r, S, Q) ==
  LET o == r.o
      g == r.g
      n == r.n
      K == r.ky
      h == g[1]
      q == Q[h]
      node(i) == IF i < Len(q) THEN q[i + 1] ELSE n + h      \* node at a position, or the header
      l(k) == LB(q, K, k)
      u(k) == UB(q, K, k)
      lr(k) == IF l(k) < u(k) THEN l(k) + 1 ELSE l(k)
      find(v, k) == IF l(k) < u(k) THEN v = q[l(k) + 1] ELSE v = n + h
  IN CASE o = "qh" -> r.v = << node(0), n + h, IF q = <<>> THEN n + h ELSE S.p[n + h], Len(q), 1, n + h >>
       [] o = "qn" -> LET i == PosIn(q, g[2]) x == g[2] IN
            r.v = << n + h, 0, node(i + 1), IF i = 0 THEN -1 ELSE q[i], Leftmost(S, x), Rightmost(S, x), Depth(S, x, n + h), 0, 0, q[Len(q)] >>
       [] o = "qk" -> Len(r.v) = 8 /\ find(r.v[1], g[2]) /\ SubSeq(r.v, 2, 8) = << node(l(g[2])), node(u(g[2])), node(l(g[2])), node(u(g[2])), node(l(g[2])), node(lr(g[2])), u(g[2]) - l(g[2]) >>
       [] o \in {"qb", "skb"} -> LET b == Bounded(q, K, g[2], g[3], g[4]) IN r.v = << node(b[1]), node(b[2]) >>
       [] o = "skf" -> find(r.v[1], g[2])
       [] o = "skl" -> r.v = << node(l(g[2])) >>
       [] o = "sku" -> r.v = << node(u(g[2])) >>
       [] o = "ske" -> r.v = << node(l(g[2])), node(u(g[2])) >>
       [] o = "skr" -> r.v = << node(l(g[2])), node(lr(g[2])) >>
       [] o = "skc" -> r.v = << u(g[2]) - l(g[2]) >>
       [] o = "spd" -> /\ r.v[1] = (IF q = <<>> THEN n + h ELSE r.P[n + h]) /\ r.v[2] = B2I(Has(q, K, g[2]))
       [] o \in {"ieu", "iel"} -> r.v = << g[2] >>
       [] o \in {"ieh", "insb"} -> r.v = << g[3] >>
       [] o = "iuc" -> IF Has(q, K, K[g[3]]) THEN r.v[2] = 0 /\ r.v[1] \in Equivs(q, K, K[g[3]]) ELSE r.v = <<0, 1>>
       [] o = "era" -> r.v = << g[2] >>
       [] o = "tru" -> r.v = << B2I(~Has(q, K, K[g[3]])) >>
       [] o = "tre" -> r.v = << 1 >>
       [] o = "init" -> r.v = << 1, 1 >>
       [] o = "rebs" -> Len(r.v) = 1     \* constrained by the structure
       [] OTHER -> r.v = <<>>
Disposed(r, Q) == LET h == r.g[1] IN
  CASE r.o = "clr" -> Len(r.d) = Len(Q[h]) /\ Range2(r.d) = Range2(Q[h])
    [] r.o = "drain" -> r.d = Q[h]
    [] OTHER -> r.d = <<>>
\* splay trees: the accessed node (or an equivalent one) becomes the root
RootAfter(r, T, Q) ==
  LET h == r.g[1]
      rt == T.p[r.n + h]
      q == Q[h]
      K == r.ky
      key(k) == Has(q, K, k) => rt \in Equivs(q, K, k)
  IN CASE r.o = "spu" -> rt = r.g[2]
       [] r.o = "insb" -> rt = r.g[3]
       [] r.o = "iuc" -> key(K[r.g[3]])
       [] r.o \in {"pub", "puf"} -> rt = r.g[2]
       [] r.o \in {"spd", "skf", "ske", "skc", "skr", "skl"} -> key(r.g[2])
       [] OTHER -> TRUE
\* bookkeeping of the scapegoat tree: growth raises the maximum; a rebuild resets it to the size
MaxAfter(r, Q, T, W) ==
  LET sz(k) == Len(W[k])
      max(a, b) == IF a > b THEN a ELSE b
      grown(k) == r.M[k] \in { max(r.m[k], sz(k)), sz(k) }
      shrunk(k) == IF sz(k) > 0 /\ sz(k) < (r.m[k] * 3) \div 4 THEN r.M[k] = sz(k) /\ Height(T, T.p[r.n + k]) = Log2(sz(k)) + 1 ELSE r.M[k] = r.m[k]
  IN IF r.o = "swt" THEN r.M[r.g[1]] = r.m[r.g[2]] /\ r.M[r.g[2]] = r.m[r.g[1]]
     ELSE \A k \in 1..2 : IF sz(k) > Len(Q[k]) THEN grown(k) ELSE IF sz(k) < Len(Q[k]) /\ r.o \in {"era", "tre", "tru"} THEN shrunk(k) ELSE r.M[k] = r.m[k]

\* clone: tree g[2] is disposed of, then receives copies (nodes n+3..) of the nodes of tree g[1]
BadClone(r, S, T, Q) ==
  LET n == r.n
      q == Q[r.g[1]]
      old == Q[r.g[2]]
      th == r.g[3]
      of == Tail(r.v)
      made == IF th = 0 THEN Len(of) ELSE th - 1
      C == { n + 2 + i : i \in 1..made }
      copy(x) == n + 2 + (CHOOSE i \in DOMAIN of : of[i] = x)
      ren(i) == IF i = 0 THEN 0 ELSE IF i = n + r.g[1] THEN n + r.g[2] ELSE copy(i)
      hd == n + r.g[2]
      src == n + r.g[1]
  IN If(r.v[1] = B2I(th = 0), "result")
     \cup If(Unchanged(S, T, Range2(q) \cup {src}), "outside")
     \cup If(NoDup(of) /\ Range2(of) \subseteq Range2(q) /\ (th = 0 => Len(of) = Len(q)), "result")
     \cup If(LET a == SubSeq(r.d, 1, Len(old)) b == SubSeq(r.d, Len(old) + 1, Len(r.d)) IN
             Len(r.d) = Len(old) + (IF th = 0 THEN 0 ELSE made) /\ Range2(a) = Range2(old) /\ NoDup(b) /\ (th # 0 => Range2(b) = C), "disposed")
     \cup (IF th = 0 /\ NoDup(of) /\ Range2(of) = Range2(q)
           THEN If(/\ \A x \in Range2(q) : T.p[copy(x)] = ren(S.p[x]) /\ T.l[copy(x)] = ren(S.l[x]) /\ T.r[copy(x)] = ren(S.r[x]) /\ (r.k \in {"RB", "AVL"} => T.x[copy(x)] = S.x[x])
                   /\ T.p[hd] = ren(S.p[src]) /\ T.l[hd] = ren(S.l[src]) /\ T.r[hd] = ren(S.r[src]), "links")
           ELSE If(T.p[hd] = 0 /\ T.l[hd] = hd /\ T.r[hd] = hd, "links"))

BadA(r) ==
  LET n == r.n
      S == Links(r.p, r.l, r.r, r.x)
      T == Links(r.P, r.L, r.R, r.X)
      Q == [h \in 1..2 |-> TSeq(S, n + h, n)]
      W == Expect(r, Q)
      h == r.g[1]
      All == 1..(n + 2)
      spare == (n + 3)..(2 * n + 2)
  IN IF ~(TreeOK(S, n + 1, n) /\ TreeOK(S, n + 2, n)) THEN {"pre"}
     ELSE IF r.o = "cln" THEN BadClone(r, S, T, Q)
     ELSE IF r.o = "init" THEN If(Unchanged(S, T, All \ {h}) /\ T.p[h] = 0 /\ T.l[h] = 0 /\ T.r[h] = 0, "links") \cup If(Results(r, S, Q), "result")
     ELSE
     LET seqs == \A k \in 1..2 : TreeOK(T, n + k, n) /\ TSeq(T, n + k, n) = W[k]
         touched == { k \in 1..2 : W[k] # Q[k] } \cup (IF r.o \in Splaying \cup {"reb", "rebs"} \cup (IF r.k = "SP" /\ r.o = "iuc" THEN {"iuc"} ELSE {}) THEN {h} ELSE {})
         left == UNION { Range2(Q[k]) : k \in 1..2 } \ UNION { Range2(W[k]) : k \in 1..2 }
         out == UNION { Range2(Q[k]) \cup {n + k} : k \in (1..2) \ touched } \cup { i \in 1..n : \A k \in 1..2 : i \notin Range2(Q[k]) /\ i \notin Range2(W[k]) } \cup spare
     IN IF ~seqs THEN {"links"} ELSE
        If(Unchanged(S, T, out), "outside")
        \cup If(Results(r, S, Q), "result") \cup If(Disposed(r, Q), "disposed")
        \cup If(\A k \in 1..2 : W[k] = <<>> \/ ~(\A i \in 1..(Len(W[k]) - 1) : r.ky[W[k][i]] <= r.ky[W[k][i + 1]]) \/ r.o \in {"swn2", "swn4"} \/ r.o \in {"reb", "rebs"} \/ BalanceOK(r.k, T, T.p[n + k], W[k], r.pr, r.M[k]), "balance")
        \cup If(r.k # "SP" \/ RootAfter(r, T, Q), "root")
        \cup If(r.k # "SG" \/ MaxAfter(r, Q, T, W), "max")
        \cup If(CASE r.o \in {"swn2", "swn4"} -> LET E == Relabel(S, r.g[2], r.g[4]) IN (\A i \in All : T.p[i] = E.p[i] /\ T.l[i] = E.l[i] /\ T.r[i] = E.r[i] /\ (i > n \/ r.k \notin {"RB", "AVL"} \/ T.x[i] = E.x[i]))
                 [] r.o \in {"rpn2", "rpn3"} -> LET E == Relabel(S, r.g[2], r.g[3]) IN (\A i \in All \ {r.g[2]} : T.p[i] = E.p[i] /\ T.l[i] = E.l[i] /\ T.r[i] = E.r[i] /\ (i > n \/ r.k \notin {"RB", "AVL"} \/ T.x[i] = E.x[i]))
                 [] r.o = "swt" -> LET E == IF r.g[1] = r.g[2] THEN S ELSE Relabel(S, n + 1, n + 2) IN \A i \in All : T.p[i] = (IF i > n THEN S.p[n + 1 + (IF r.g[1] = r.g[2] THEN i - n - 1 ELSE n + 2 - i)] ELSE E.p[i]) /\ (i > n \/ (T.l[i] = E.l[i] /\ T.r[i] = E.r[i] /\ T.x[i] = S.x[i]))
                 [] r.o = "reb" -> Q[h] = <<>> \/ Height(T, T.p[n + h]) = Log2(Len(Q[h])) + 1
                 [] r.o = "rebs" -> LET x == r.g[2] a == Inorder(S, x, S.p[x], n, n) par == S.p[x] nr == r.v[1] IN
                      /\ nr \in Range2(a) /\ T.p[nr] = par /\ Inorder(T, nr, par, n, n) = a /\ Height(T, nr) = Log2(Len(a)) + 1
                      /\ Unchanged(S, T, (Range2(Q[h]) \ Range2(a)) \ {par})
                 [] r.k = "BS" /\ \E x \in 1..n : W[h] # Q[h] /\ x \in Range2(W[h]) /\ x \notin Range2(Q[h]) /\ r.o \in {"ieu", "iel", "ieh", "insb", "pub", "puf", "iuc"} ->
                      LET x == CHOOSE x \in Range2(W[h]) : x \notin Range2(Q[h]) E == LeafIns(S, n + h, Q[h], PosIn(W[h], x), x) IN Unchanged(E, T, 1..(n + 2))
                 [] OTHER -> TRUE, "structure")
Bad(r) == IF Crash(r) THEN {"crash-" \o r.z} ELSE CASE r.t = "T" -> BadA(r) [] OTHER -> {"crash-unknown"}
Inv == LET bad == Bad(Rec) IN bad = {} \/ Report(bad)
=============================================================================
