-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* What every const observer of a container must report, given its contents; *)
(* shared by the sequence, ordered and unordered families.                  *)
(*  S  all observers of one container (positions in traversal order)        *)
(*  L  link flags of all objects;  B  the bystander list that holds all     *)
(*     objects through another hook;  C  relational operators               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Iota(f, n) == [i \in 1..n |-> f + i]
If(c, x) == IF c THEN {} ELSE {x}
B2I(b) == IF b THEN 1 ELSE 0
Crash(r) == "z" \in DOMAIN r

BadS(r) ==
  LET n == r.n
      fw == Iota(0, n)
      rv == [i \in 1..n |-> n + 1 - i]
      first == IF n = 0 THEN -1 ELSE 1
      last == IF n = 0 THEN -1 ELSE n
  IN  If(r.fw = fw /\ r.cf = fw, "fwd")
      \cup If(r.list = 0 \/ (r.rv = rv /\ r.cr = rv /\ r.bw = rv), "rev")
      \cup If(r.sz = n, "size") \cup If(r.em = (IF n = 0 THEN 1 ELSE 0), "empty")
      \cup If(r.fr = first /\ r.cfr = first /\ r.bk \in {-1, last} /\ r.cbk \in {-1, last} /\ r.lt \in {-1, n}
              /\ (r.list = 1 => r.bk = last /\ r.cbk = last), "ends")
      \cup If(r.to = [i \in 1..n |-> IF i < n THEN i + 1 ELSE 0] /\ r.ct = fw /\ r.st \in {<<>>, fw}, "iterto")
      \cup If(r.list = 1 \/ r.pv = [i \in 1..(n + 1) |-> i - 1], "prev")
      \cup If(r.ce # 0, "cfe") \cup If(r.vi = 1, "vinit")

\* ne: number of elements that are the last of a linear (null-terminated) chain
BadL(r) == If(r.ml = r.m, IF r.ne > 0 /\ r.ml = r.m - r.ne THEN "linear-linked" ELSE "member-unlinked") \cup If(r.pl = 0, "pool-linked")
BadB(r) == If(r.f = Iota(0, r.n) /\ r.r = [i \in 1..r.n |-> r.n + 1 - i] /\ r.lk = 1, "bystander")

\* lexicographical comparison
RECURSIVE LexLess(_, _)
LexLess(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
                 ELSE IF x[1] < y[1] THEN TRUE ELSE IF y[1] < x[1] THEN FALSE ELSE LexLess(Tail(x), Tail(y))
BadC(r) == LET eq == r.ka = r.kb
               lt == LexLess(r.ka, r.kb)
               gt == LexLess(r.kb, r.ka)
           IN If(r.r = << B2I(eq), B2I(~eq), B2I(lt), B2I(gt), B2I(~gt), B2I(~lt), B2I(eq), 1, B2I(gt) >>, "cmp")

\* misuse of a safe or auto-unlink hook (m: 0 normal, 1 safe, 2 auto-unlink), tried in a forked process: outcome c is
\* "1" the insertion assertion, "2" the destruction assertion, "N" no assertion, "X" a crash.  w: the element was 0 unlinked, 1 in
\* the container, 2 in another one, 3 twice in the inserted range; lc: last of a linear chain; u: an equivalent element hinders insertion
BadX(r) ==
  IF r.w = 0 THEN If(r.c = "N", "false-alarm")
  ELSE IF r.o = "destroy" THEN If(r.c = (IF r.m = 1 THEN "2" ELSE "N"), IF r.c = "N" THEN IF r.lc = 1 THEN "linear-linked" ELSE "undetected" ELSE "false-alarm")
  ELSE If(r.c = "1" \/ (r.u = 1 /\ r.c = "N"), IF r.lc = 1 THEN "linear-linked" ELSE "undetected")
=============================================================================
