--------------------------- MODULE MapryDeserTrace ---------------------------
(* Are recorded errors those of a behaviour of the machine of MapryDeser?    *)
(*                                                                           *)
(* The order in which the machine visits places which are right is           *)
(* immaterial, so that these are visited first; then the errors are matched  *)
(* one by one with the places which are wrong. The errors are as specified   *)
(* if they are matched up to the last, with the container full or no sure    *)
(* error left.                                                               *)
EXTENDS MapryPlaces, Json

CONSTANTS File, NChunks
TraceInput == JsonDeserialize(File)
Items == TraceInput.items

RECURSIVE Wrongs(_, _, _, _)
\* The wrong places under the places.
Wrongs(xs, s, doc, lang) ==
  LET tagged == {[x |-> x, own |-> Own(x, s, doc, lang)] : x \in xs}
      bad == {y \in tagged : y.own # "no"}
      inner == UNION {Within(y.x, s, lang) : y \in tagged \ bad}
  IN {[id |-> y.x.id, k |-> y.x.k, r |-> y.x.r, json |-> IF y.x.k = "missing" THEN y.x.json ELSE "", sure |-> y.own = "sure"] : y \in bad}
     \cup (IF inner = {} THEN {} ELSE Wrongs(inner, s, doc, lang))

\* The phase a run reaches depends on its errors only where a registry may be
\* right or wrong.
Places(it, s) ==
  LET first == Wrongs(FirstTasks(it.doc, it.ref), s, it.doc, it.lang)
  IN IF it.doc.k # "obj" \/ \E x \in first : x.sure \/ \E j \in 1..Len(it.runs) : x.r = it.runs[j].errs[1].ref THEN first
     ELSE Wrongs(SecondTasks(s, it.doc, it.ref, it.lang), s, it.doc, it.lang)

Fits(x, e) == x.r = e.ref /\ (x.k = "missing" => \E j \in 1..Len(e.w) : e.w[j] = x.json)

RECURSIVE Matched(_, _, _)
Matched(run, at, left) ==
  IF at = Len(run.errs) THEN at = run.cap \/ ~\E x \in left : x.sure
  ELSE IF at = run.cap THEN FALSE
  ELSE LET able == {x \in left : Fits(x, run.errs[at + 1])}
           \* one of each of those which are alike
           some == {x \in able : x.id = (CHOOSE y \in able : y.r = x.r /\ y.json = x.json /\ y.k = x.k).id}
       IN \E x \in some : Matched(run, at + 1, left \ {x})

VARIABLES chunk, pos
Size == (Len(Items) + NChunks - 1) \div NChunks
Last(ch) == Min2(ch * Size, Len(Items))
Init == chunk \in 1..NChunks /\ pos = (chunk - 1) * Size
Next ==
  /\ pos < Last(chunk)
  /\ pos' = pos + 1
  /\ chunk' = chunk
  /\ LET it == Items[pos + 1]  s == TraceInput.schemas[it.s] IN
     /\ LET places == Places(it, s)  bad == {j \in 1..Len(it.runs) : ~Matched(it.runs[j], 0, places)}
        IN \A j \in bad : PrintT("FAIL " \o ToString(pos + 1) \o " " \o ToString(j))
     /\ IF pos + 1 < Last(chunk) THEN TRUE ELSE PrintT("DONE " \o ToString(chunk))
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
