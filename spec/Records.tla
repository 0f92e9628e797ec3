------------------------------ MODULE Records ------------------------------
(***************************************************************************)
(* Iteration over the records produced by a driver: variable cursor walks over  *)
(* the file in NStrides interleaved strides so that TLC's workers share the work. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
NRecs == Len(Recs)
NStrides == 64
VARIABLE cursor
Init == cursor \in 1..(IF NRecs < NStrides THEN NRecs ELSE NStrides)
Next == cursor + NStrides <= NRecs /\ cursor' = cursor + NStrides
Spec == Init /\ [][Next]_cursor
Rec == Recs[cursor]
\* a record that is not a behaviour of the specification is printed; the runner decides what it violates
Report(bad) == PrintT(<<"BADREC", cursor, bad>>)
=============================================================================
