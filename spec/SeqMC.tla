------------------------------- MODULE SeqMC -------------------------------
\* Model values for SeqModel, and generation of behaviours for replay in the code
EXTENDS SeqModel, Json
KeysDef == <<1, 2, 2, 1>>
VARIABLE hist
GInit == Init /\ hist = <<>>
Depth == 16
\* one random enabled operation per step: TLC -simulate then yields random behaviours
GStep == /\ Len(hist) < Depth
         /\ \E x \in { RandomElement({ y \in Ops : Enabled2(y[1], y[2], A, B, KeyOf) }) } :
               Step(x) /\ hist' = Append(hist, x)
GDone == Len(hist) = Depth /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED <<vars, hist>>
GNext == GStep \/ GDone
MInit == Init /\ hist = <<>>
\* every operation from every pair of contents: leaf states carry the operation, then forget it
MNext == /\ UNCHANGED hist
         /\ IF op[1] = "init" THEN Next ELSE A' = A /\ B' = B /\ op' = IdleOp /\ pre' = <<A, B>>
=============================================================================
