------------------------------ MODULE RingOps ------------------------------
(***************************************************************************)
(* Rings and chains of nodes 1..n as next functions (0: null), and the effect *)
(* of every operation of circular_list_algorithms ("cl"),                    *)
(* circular_slist_algorithms ("cs") and linear_slist_algorithms ("ls").       *)
(* An effect is described by the sequences of nodes it leaves: rings (or      *)
(* chains) are taken apart and put together as sequences.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == {s[i] : i \in 1..Len(s)}
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Walk(_, _, _, _)
Walk(f, p, x, k) == IF x = 0 \/ x = p \/ k = 0 THEN <<>> ELSE <<x>> \o Walk(f, p, f[x], k - 1)
\* the nodes reached from p, p first
Orbit(f, p) == <<p>> \o Walk(f, p, f[p], Len(f))
\* f with the nodes of s linked in this order, closed to a ring or ended by null
Put(f, s, ring) == [i \in 1..Len(f) |-> IF i \notin Rng(s) THEN f[i]
                      ELSE LET k == IndexOf(s, i) IN IF k < Len(s) THEN s[k + 1] ELSE IF ring THEN s[1] ELSE 0]
From(s, x) == SubSeq(s, IndexOf(s, x), Len(s))
Until(s, x) == IF x = 0 \/ x \notin Rng(s) THEN s ELSE SubSeq(s, 1, IndexOf(s, x) - 1)
Swap(f, a, b) == LET pi(i) == IF i = a THEN b ELSE IF i = b THEN a ELSE i IN [i \in 1..Len(f) |-> pi(f[pi(i)])]
Rot(s, m) == SubSeq(s, m + 1, Len(s)) \o SubSeq(s, 1, m)
Bit(m, i) == (m \div 2^(i - 1)) % 2 = 1
PreOf(f, x) == CHOOSE i \in 1..Len(f) : f[i] = x

\* [f |-> the next function afterwards, free |-> nodes whose own links are not specified, r |-> results, d |-> nodes disposed]
Eff(f, r) == [f |-> f, free |-> {}, r |-> r, d |-> <<>>]
Free(f, s, r) == [f |-> f, free |-> s, r |-> r, d |-> <<>>]
\* nodes handed to the disposer, which resets them
Disp(f, s, r) == [f |-> [i \in 1..Len(f) |-> IF i \in Rng(s) THEN 0 ELSE f[i]], free |-> {}, r |-> r, d |-> s]

\* ---- operations on [b, e) of doubly linked rings
CL(o, g, a) ==
  LET p == g[1]
      S(x) == Orbit(a, x)
      T == Tail(S(p)) k == Len(T)
      seg(b, e) == IF b = e THEN <<>> ELSE Until(S(b), e)
      \* take [b, e) out, then put it before x
      move(x, b, e) == LET s == seg(b, e) f1 == Put(a, IF e \in Rng(S(b)) /\ e # b THEN From(S(b), e) ELSE <<>>, TRUE) IN Put(f1, Orbit(f1, x) \o s, TRUE)
  IN CASE o = "swap"   -> Eff(Swap(a, p, g[2]), <<>>)
       [] o = "inited" -> Eff(a, <<IF a[p] = 0 THEN 1 ELSE 0>>)
       [] o = "unique" -> Eff(a, <<IF a[p] \in {0, p} THEN 1 ELSE 0>>)
       [] o = "isempty" -> Eff(a, <<IF a[p] = p THEN 1 ELSE 0>>)
       [] o = "count"  -> Eff(a, <<k + 1>>)
       [] o = "unlink" -> IF k = 0 THEN Eff(a, <<p>>) ELSE Free(Put(a, T, TRUE), {p}, <<T[1]>>)
       [] o = "unlinkr" -> IF p = g[2] THEN Eff(a, <<>>) ELSE Free(Put(a, From(S(p), g[2]), TRUE), Rng(seg(p, g[2])), <<>>)
       [] o = "rev"    -> Eff(Put(a, <<p>> \o Rev(T), TRUE), <<>>)
       [] o = "mvb"    -> Eff(IF k = 0 THEN a ELSE Put(a, <<p>> \o Rot(T, g[2] % k), TRUE), <<>>)
       [] o = "mvf"    -> Eff(IF k = 0 THEN a ELSE Put(a, <<p>> \o Rot(T, (k - (g[2] % k)) % k), TRUE), <<>>)
       [] o = "lnkb"   -> Eff(Put(a, S(p) \o <<g[2]>>, TRUE), <<>>)
       [] o = "lnka"   -> Eff(Put(a, <<p, g[2]>> \o T, TRUE), <<>>)
       [] o = "dist"   -> Eff(a, <<Len(seg(p, g[2]))>>)
       [] o = "xfer"   -> Eff(IF g[2] = g[3] \/ p \in {g[2], g[3]} THEN a ELSE move(p, g[2], g[3]), <<>>)
       [] o = "xfer1"  -> LET i == g[2] IN Eff(IF p = i \/ p = a[i] THEN a
                             ELSE IF a[i] = i THEN Put(a, S(p) \o <<i>>, TRUE) ELSE move(p, i, a[i]), <<>>)
       [] o = "part"   -> LET s == seg(p, g[2]) y == SelectSeq(s, LAMBDA x : Bit(g[3], x)) z == SelectSeq(s, LAMBDA x : ~Bit(g[3], x))
                          IN Eff(IF s = <<>> THEN a ELSE Put(a, (y \o z) \o From(S(p), g[2]), TRUE), <<Len(y), Len(z), IF z = <<>> THEN g[2] ELSE z[1]>>)

\* ---- operations on (b, e) and (b, e] of singly linked rings (ring) or chains (~ring)
SL(o, g, a, ring) ==
  LET p == g[1]
      S(x) == Orbit(a, x)
      T == Tail(S(p)) k == Len(T)
      end == IF ring THEN p ELSE 0
      mid(b, e) == IF e = b \/ e = 0 THEN Tail(S(b)) ELSE Until(Tail(S(b)), e)        \* (b, e)
      after(b, e) == IF e = b \/ e = 0 THEN <<>> ELSE From(S(b), e)                   \* [e, ...
      move(x, b, s, rest) == LET f1 == Put(a, <<b>> \o rest, ring) IN Put(f1, <<x>> \o s \o Tail(Orbit(f1, x)), ring)
  IN CASE o = "inited" -> Eff(a, <<IF a[p] = 0 THEN 1 ELSE 0>>)
       [] o = "unique" -> Eff(a, <<IF a[p] \in {0, p} THEN 1 ELSE 0>>)
       [] o = "isempty" -> Eff(a, <<IF a[p] = end THEN 1 ELSE 0>>)
       [] o = "issent" -> Eff(a, <<IF a[p] = (IF ring THEN 0 ELSE p) THEN 1 ELSE 0>>)
       [] o = "sent"   -> Eff([a EXCEPT ![p] = IF ring THEN 0 ELSE p], <<1>>)
       [] o = "endn"   -> Eff(a, <<end>>)
       [] o = "count"  -> Eff(a, <<k + 1>>)
       [] o \in {"lnka", "inc"} -> Eff(Put(a, <<p, g[2]>> \o T, ring), <<>>)
       [] o = "unla"   -> IF k = 0 THEN Eff(a, <<>>) ELSE Free(Put(a, <<p>> \o Tail(T), ring), {T[1]}, <<>>)
       [] o = "unlad"  -> Disp(Put(a, <<p>> \o Tail(T), ring), <<T[1]>>, <<>>)
       [] o = "detach" -> Disp(Put(a, <<p>>, ring), T, <<k>>)
       [] o = "unlar"  -> Free(Put(a, <<p>> \o after(p, g[2]), ring), Rng(mid(p, g[2])), <<>>)
       [] o = "unlard" -> Disp(Put(a, <<p>> \o after(p, g[2]), ring), mid(p, g[2]), <<Len(mid(p, g[2]))>>)
       [] o = "dist"   -> Eff(a, <<IF p = g[2] THEN 0 ELSE Len(mid(p, g[2])) + 1>>)
       [] o = "prevn"  -> LET m == <<p>> \o mid(p, g[2]) IN Eff(a, <<m[Len(m)]>>)
       [] o = "xfer"   -> LET b == g[2] e == g[3] IN
                          Eff(IF b = e \/ p \in {b, e} THEN a ELSE move(p, b, Append(mid(b, e), e), Tail(From(S(b), e))), <<>>)
       [] o = "xferall" -> Eff(IF Len(S(g[2])) = 1 THEN a ELSE move(p, g[2], Tail(S(g[2])), <<>>), <<>>)
       [] o = "part"   -> LET s == mid(p, g[2]) y == SelectSeq(s, LAMBDA x : Bit(g[3], x)) z == SelectSeq(s, LAMBDA x : ~Bit(g[3], x)) all == <<p>> \o y \o z
                          IN Eff(Put(a, all \o after(p, g[2]), ring), <<Len(y), Len(z), IF z = <<>> THEN g[2] ELSE z[1], all[Len(all)]>>)
       \* circular only
       [] o = "swap"   -> Eff(Swap(a, p, g[2]), <<>>)
       [] o = "unlink" -> IF a[p] = 0 \/ k = 0 THEN Eff(a, <<>>) ELSE Free(Put(a, T, TRUE), {p}, <<>>)
       [] o = "prev"   -> Eff(a, <<PreOf(a, p), PreOf(a, PreOf(a, p))>>)
       [] o = "prevprev" -> Eff(a, <<PreOf(a, PreOf(a, g[2]))>>)
       [] o = "lnkb"   -> Eff(Put(a, S(p) \o <<g[2]>>, TRUE), <<>>)
       \* chains only
       [] o = "swapt"  -> Eff(Put(Put(a, <<p>> \o Tail(S(g[2])), FALSE), <<g[2]>> \o T, FALSE), <<>>)
       [] o = "rev"    -> IF ring THEN Eff(Put(a, <<p>> \o Rev(T), TRUE), <<>>)
                          ELSE IF p = 0 THEN Eff(a, <<0>>) ELSE Eff(Put(a, Rev(S(p)), FALSE), <<S(p)[Len(S(p))]>>)
       [] o \in {"mvb", "mvf"} ->
            LET s == IF ring THEN T ELSE S(p) l == Len(s)
                m == IF l = 0 THEN 0 ELSE IF o = "mvb" THEN g[2] % l ELSE (l - (g[2] % l)) % l IN
            IF m = 0 THEN Eff(a, IF ring THEN <<0>> ELSE <<0, 0>>)
            ELSE IF ring THEN Eff(Put(a, <<p>> \o Rot(s, m), TRUE), <<s[m]>>)
            ELSE Eff(Put(a, Rot(s, m), FALSE), <<s[m + 1], s[m]>>)

Effect(kd, o, g, a) == IF kd = "cl" THEN CL(o, g, a) ELSE SL(o, g, a, kd = "cs")
\* operations documented as constant-time
Const == {"init", "inited", "inith", "unique", "isempty", "issent", "sent", "endn", "lnka", "inc", "unla", "swapt"}
ConstCL == Const \cup {"unlink", "lnkb", "swap", "xfer", "xfer1"}
ConstSL == Const \cup {"xfer"}
=============================================================================
