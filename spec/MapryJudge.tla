----------------------------- MODULE MapryJudge -----------------------------
(* Visits the recorded items one after the other (in independent chunks) and *)
(* states what the operator Bad says about each: a set of texts, empty if the *)
(* item is as specified. A module which extends this one defines Bad as       *)
(* BadX if its name is MapryX.                                                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS File, NChunks, Bad(_)
Items == JsonDeserialize(File).items
VARIABLES chunk, pos

Size == (Len(Items) + NChunks - 1) \div NChunks
Last(ch) == IF ch * Size < Len(Items) THEN ch * Size ELSE Len(Items)
Init == chunk \in 1..NChunks /\ pos = (chunk - 1) * Size
Next ==
  /\ pos < Last(chunk)
  /\ pos' = pos + 1
  /\ chunk' = chunk
  /\ LET bad == Bad(Items[pos + 1]) IN
     /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson({<<pos + 1, b>> : b \in bad}))
     /\ IF pos + 1 < Last(chunk) THEN TRUE ELSE PrintT("DONE " \o ToString(chunk))
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
