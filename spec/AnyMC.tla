------------------------------- MODULE AnyMC --------------------------------
\* The state machine of AnyOps over small pools, and what must hold in it
EXTENDS AnyOps, TLC
CONSTANT N
VARIABLES C, op
kd == <<"b", "f", "o", "h", "u">>
K == <<1, 2, 1, 1>>
Objs == 1..N
Kinds == DOMAIN kd
Ops == { <<"ins", <<k, x>> >> : k \in Kinds, x \in Objs } \cup { <<"era", <<k, x>> >> : k \in Kinds, x \in Objs } \cup { <<"erk", <<k, q>> >> : k \in Kinds, q \in 1..2 }
       \cup { <<o, <<k>> >> : o \in {"clr", "des", "pop"}, k \in Kinds } \cup { <<"xfer", <<k, j>> >> : k \in Kinds, j \in Kinds }
Init == C = [k \in Kinds |-> <<>>] /\ op = <<"", <<>>, <<>> >>
Next == \E x \in Ops : Enabled(x[1], x[2], C, K, kd) /\ C' = Effect(x[1], x[2], C, K, kd) /\ op' = <<x[1], x[2], C>>
Spec == Init /\ [][Next]_<<C, op>>
View == C
Exclusive == \A x \in Objs : Cardinality(Where(C, x)) <= 1
NoDups == \A k \in Kinds : Cardinality(Rng(C[k])) = Len(C[k])
Sorted == \A i, j \in 1..Len(C[3]) : i < j => K[C[3][i]] <= K[C[3][j]]
Unique == \A i, j \in 1..Len(C[5]) : i # j => K[C[5][i]] # K[C[5][j]]
\* containers other than the ones named are not touched; a transfer loses only what the destination refuses
Local == op[1] # "" => \A k \in Kinds : (k \notin Rng(op[2]) \/ (op[1] \in {"ins", "era", "erk"} /\ k # op[2][1])) => C[k] = op[3][k]
Conserved == op[1] = "xfer" => LET a == op[2][1] b == op[2][2] IN
  /\ Rng(C[b]) \subseteq Rng(op[3][a]) \cup Rng(op[3][b])
  /\ (b # 5 => Rng(C[b]) = Rng(op[3][a]) \cup Rng(op[3][b]))
  /\ (b = 5 => {K[y] : y \in Rng(C[b])} = {K[y] : y \in Rng(op[3][a]) \cup Rng(op[3][b])})
=============================================================================
