------------------------------- MODULE KeyOps -------------------------------
(***************************************************************************)
(* Unordered containers with the default hash function: keys are given as       *)
(* representations (values in memory); E maps a representation to the equality    *)
(* class it denotes (0.0 and -0.0 are one class, so are two long doubles that      *)
(* differ in padding, two strings of different capacity, ...).  kd = "u" unique,    *)
(* "m" multi.  The contents is a sequence of objects, R maps objects to keys.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == { s[i] : i \in DOMAIN s }
Class(C, q, R, E) == { x \in Rng(C) : E[R[x]] = E[q] }
Enabled(o, g, C, R, E, kd) ==
  CASE o = "ins" -> g[1] \in DOMAIN R /\ g[1] \notin Rng(C)
    [] o = "era" -> g[1] \in Rng(C)
    [] o \in {"erk", "chk"} -> g[1] \in DOMAIN E
    [] o \in {"rhs", "inc", "clr"} -> TRUE
    [] OTHER -> FALSE
\* the set of objects afterwards
After(o, g, C, R, E, kd) ==
  CASE o = "ins" -> IF kd = "u" /\ Class(C, R[g[1]], R, E) # {} THEN Rng(C) ELSE Rng(C) \cup {g[1]}
    [] o = "era" -> Rng(C) \ {g[1]}
    [] o = "erk" -> Rng(C) \ Class(C, g[1], R, E)
    [] o = "clr" -> {}
    [] OTHER -> Rng(C)
\* the object the operation may name (0: none), and the number it reports
Names(o, g, C, R, E, kd) ==
  CASE o = "ins" -> IF kd = "u" /\ Class(C, R[g[1]], R, E) # {} THEN Class(C, R[g[1]], R, E) ELSE {g[1]}
    [] o = "chk" -> IF Class(C, g[1], R, E) = {} THEN {0} ELSE Class(C, g[1], R, E)
    [] OTHER -> {0}
Num(o, g, C, R, E, kd) ==
  CASE o = "ins" -> IF kd = "u" /\ Class(C, R[g[1]], R, E) # {} THEN 0 ELSE 1
    [] o = "chk" -> IF Class(C, g[1], R, E) = {} THEN 1 ELSE 0
    [] o = "erk" -> Cardinality(Class(C, g[1], R, E))
    [] OTHER -> 0
=============================================================================
