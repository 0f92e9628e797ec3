------------------------------- MODULE KeyMC --------------------------------
\* KeyOps over a small pool: hashing is any function of the class, so every representation of a class finds the same objects
EXTENDS KeyOps, TLC
CONSTANTS NB
E == <<1, 1, 2, 3>>            \* four representations of three classes
R == <<1, 2, 3, 4, 2>>         \* five objects
Reps == DOMAIN E
VARIABLES C, kd, h, op
Ops == { <<"ins", <<x>> >> : x \in DOMAIN R } \cup { <<"era", <<x>> >> : x \in DOMAIN R } \cup { <<o, <<q>> >> : o \in {"erk", "chk"}, q \in Reps } \cup { <<"clr", <<>> >>, <<"rhs", <<>> >> }
Init == C = <<>> /\ kd \in {"u", "m"} /\ h \in [{E[q] : q \in Reps} -> 0..NB - 1] /\ op = <<"", <<>>, <<>> >>
Perm(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Rng(s) = S
Next == \E x \in Ops : Enabled(x[1], x[2], C, R, E, kd) /\ C' = Perm(After(x[1], x[2], C, R, E, kd)) /\ op' = <<x[1], x[2], C>> /\ UNCHANGED kd
        /\ IF x[1] = "rhs" THEN h' \in [{E[q] : q \in Reps} -> 0..NB - 1] ELSE h' = h
Spec == Init /\ [][Next]_<<C, kd, h, op>>
Bucket(q) == h[E[q]]
\* searching only the bucket of the key, for whichever representation of it, finds all of its class
Search(q) == { x \in Rng(C) : Bucket(R[x]) = Bucket(q) /\ E[R[x]] = E[q] }
Complete == \A q \in Reps : Search(q) = Class(C, q, R, E)
Unique == kd = "u" => \A q \in Reps : Cardinality(Class(C, q, R, E)) <= 1
Agree == \A p, q \in Reps : E[p] = E[q] => Search(p) = Search(q) /\ Bucket(p) = Bucket(q)
Counted == op[1] = "erk" => Cardinality(Rng(op[3])) - Cardinality(Rng(C)) = Num("erk", op[2], op[3], R, E, kd)
=============================================================================
