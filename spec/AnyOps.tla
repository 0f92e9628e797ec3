------------------------------- MODULE AnyOps -------------------------------
(***************************************************************************)
(* One hook, many kinds of container: the objects of a pool wander through     *)
(* containers of every kind, being in at most one of them at a time.           *)
(* C is the sequence of the contents of all containers; kd[k] says how k        *)
(* takes a new element: "b" at the back, "f" at the front, "o" ordered (after   *)
(* the equivalent ones), "h" hashed (anywhere, equivalent ones together),       *)
(* "u" hashed, refusing a second equivalent element.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == {s[i] : i \in 1..Len(s)}
Without(s, D) == SelectSeq(s, LAMBDA y : y \notin D)
UpTo(s, x, K) == Cardinality({i \in 1..Len(s) : K[s[i]] <= K[x]})
Ins(kk, s, x, K) ==
  CASE kk = "b" -> Append(s, x)
    [] kk = "f" -> <<x>> \o s
    [] kk = "o" -> LET p == UpTo(s, x, K) IN SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
    [] kk = "h" -> Append(s, x)
    [] kk = "u" -> IF \E y \in Rng(s) : K[y] = K[x] THEN s ELSE Append(s, x)
RECURSIVE InsAll(_, _, _, _)
InsAll(kk, s, q, K) == IF q = <<>> THEN s ELSE InsAll(kk, Ins(kk, s, q[1], K), Tail(q), K)

Where(C, x) == { k \in DOMAIN C : x \in Rng(C[k]) }
Keyed(kk) == kk \in {"o", "h", "u"}
Enabled(o, g, C, K, kd) ==
  CASE o = "ins" -> Where(C, g[2]) = {}
    [] o = "era" -> g[2] \in Rng(C[g[1]])
    [] o = "erk" -> Keyed(kd[g[1]])
    [] o = "pop" -> C[g[1]] # <<>>
    [] o = "xfer" -> g[1] # g[2]
    [] OTHER -> TRUE                                  \* clr, des
Effect(o, g, C, K, kd) ==
  CASE o = "ins" -> [C EXCEPT ![g[1]] = Ins(kd[g[1]], @, g[2], K)]
    [] o = "era" -> [C EXCEPT ![g[1]] = Without(@, {g[2]})]
    [] o = "erk" -> [C EXCEPT ![g[1]] = Without(@, {y \in Rng(@) : K[y] = g[2]})]
    [] o = "pop" -> [C EXCEPT ![g[1]] = Tail(@)]
    [] o \in {"clr", "des"} -> [C EXCEPT ![g[1]] = <<>>]
    \* everything is removed from one container and, as soon as it is out of it, inserted in another one
    [] o = "xfer" -> [C EXCEPT ![g[1]] = <<>>, ![g[2]] = InsAll(kd[g[2]], @, C[g[1]], K)]
Grouped(s, K) == \A i, j \in 1..Len(s) : K[s[i]] = K[s[j]] => \A m \in i..j : K[s[m]] = K[s[i]]
=============================================================================
