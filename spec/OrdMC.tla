------------------------------- MODULE OrdMC -------------------------------
\* Model values for OrdModel, and generation of behaviours for replay in the code
EXTENDS OrdModel, Json
KeysDef == <<1, 2, 2, 1, 3>>
VARIABLE hist
Depth == 18
GInit == Init /\ hist = <<>>
Weighted == LET grow == { y \in Ops : y[1] \in {"inse", "insh", "insu", "inuh", "insr", "inur", "insb", "chc", "chch"} }
            IN  IF RandomElement(1..2) = 1 /\ grow # {} THEN grow ELSE { y \in Ops : y[1] # "lk" \/ RandomElement(1..6) = 1 }
GStep == /\ Len(hist) < Depth
         /\ \E x \in { RandomElement({ y \in Weighted \cup {<<"swap", <<>> >>} : Enabled(y[1], y[2], A, B, KeyOf) }) } :
               Step(x) /\ hist' = Append(hist, x)
GDone == Len(hist) = Depth /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED <<vars, hist>>
GNext == GStep \/ GDone
MInit == Init /\ hist = <<>>
\* every operation from every pair of contents: leaf states carry the operation, then forget it
MNext == /\ UNCHANGED hist
         /\ IF op[1] = "init" THEN Next ELSE A' = A /\ B' = B /\ op' = IdleOp /\ pre' = <<A, B>>
=============================================================================
