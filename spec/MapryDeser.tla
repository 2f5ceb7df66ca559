----------------------------- MODULE MapryDeser -----------------------------
(* The deserializer as a state machine.                                      *)
(*                                                                           *)
(* It visits places of the document (tasks), in any order: a place whose     *)
(* value is wrong by itself gives one error, any other one is replaced by    *)
(* the places in it. First come the registries; the instances and the        *)
(* properties follow only if these gave no error. The error container holds  *)
(* at most Cap errors; the machine halts as soon as it is full.              *)
(*                                                                           *)
(* MapryValue states what the outcome has to be as a set of violations; here *)
(* is a machine which computes it, and the invariants relate the two.        *)
(* MapryDeserTrace checks recorded errors against the machine.               *)
EXTENDS MapryPlaces, Json

CONSTANTS File, Late, GoOn

DeserInput == JsonDeserialize(File)
DeserSchemas == DeserInput.schemas
DeserItems == DeserInput.items

-----------------------------------------------------------------------------
(* The machine.                                                              *)
VARIABLES item, phase, todo, errs
vars == <<item, phase, todo, errs>>

It == DeserItems[item]
Sch == DeserSchemas[It.s]
Halted == phase = "end"
Full == Len(errs) >= It.cap

Init ==
  /\ item \in 1..Len(DeserItems)
  /\ phase = "registries" /\ errs = <<>>
  /\ todo = FirstTasks(DeserItems[item].doc, DeserItems[item].ref)

Visit(x) ==
  LET own == Own(x, Sch, It.doc, It.lang) IN
  \/ /\ own # "no"
     /\ todo' = todo \ {x} /\ errs' = Append(errs, [id |-> x.id, e |-> ErrorOf(x)])
     /\ UNCHANGED <<item, phase>>
  \/ /\ own # "sure"
     /\ todo' = (todo \ {x}) \cup Within(x, Sch, It.lang)
     /\ UNCHANGED <<item, phase, errs>>

Next ==
  \/ ~Halted /\ (~Full \/ Late) /\ \E x \in todo : Visit(x)
  \/ /\ phase = "registries" /\ todo = {} /\ (errs = <<>> \/ (GoOn /\ It.doc.k = "obj"))
     /\ phase' = "instances" /\ todo' = SecondTasks(Sch, It.doc, It.ref, It.lang)
     /\ UNCHANGED <<item, errs>>
  \/ /\ ~Halted
     /\ \/ Full /\ ~Late
        \/ todo = {} /\ phase = "instances"
        \/ todo = {} /\ phase = "registries" /\ errs # <<>>
     /\ phase' = "end" /\ UNCHANGED <<item, todo, errs>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* What it computes is what MapryValue states.                               *)
Violations == {[ref |-> v.ref, prop |-> v.prop] : v \in DocViol(Sch, It.doc, It.ref, It.lang)}
SureViolations == {[ref |-> v.ref, prop |-> v.prop] : v \in SureOnes(DocViol(Sch, It.doc, It.ref, It.lang))}
Reported == {errs[j].e : j \in 1..Len(errs)}

Capped == Len(errs) <= It.cap
True == Reported \subseteq Violations
Once == \A i, j \in 1..Len(errs) : errs[i].id = errs[j].id => i = j
Complete == Halted /\ Len(errs) < It.cap => SureViolations \subseteq Reported
Outcome == Halted => /\ Violations = {} => errs = <<>>
                     /\ SureViolations # {} => errs # <<>>
Terminates == <>Halted
=============================================================================
