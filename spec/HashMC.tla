------------------------------- MODULE HashMC -------------------------------
\* Model values for HashModel, and generation of behaviours for replay in the code
EXTENDS HashModel, Json
KeysDef == <<1, 1, 3, 2>>
HashDef == <<4, 1, 3, 1, 6>>
CountsMod == {2, 3, 6}
CountsInc == {1, 2, 4}
CountsFm == {3, 7}
VARIABLE hist
Depth == 18
GInit == Init /\ hist = <<>>
Weighted == LET grow == { y \in Ops : y[1] \in {"ins", "insu", "insr", "inur", "chc", "chrc"} }
                re == { y \in Ops : y[1] \in {"rhs", "frh", "irg", "irs", "irt"} }
                w == RandomElement(1..6)
            IN  IF w <= 2 /\ grow # {} THEN grow ELSE IF w = 3 THEN re ELSE { y \in Ops : y[1] # "lk" \/ RandomElement(1..6) = 1 }
GStep == /\ Len(hist) < Depth
         /\ \E x \in { RandomElement({ y \in Weighted \cup {<<"swap", <<>> >>} : Can(y) }) } : Step(x) /\ hist' = Append(hist, x)
GDone == Len(hist) = Depth /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED <<vars, hist>>
GNext == GStep \/ GDone
MInit == Init /\ hist = <<>>
\* every operation from every pair of contents: leaf states carry the operation, then forget it
MNext == /\ UNCHANGED hist
         /\ IF op[1] = "init" THEN Next ELSE A' = A /\ B' = B /\ op' = IdleOp /\ pre' = <<A, B>>
=============================================================================
