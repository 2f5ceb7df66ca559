----------------------------- MODULE MapryNeutral -----------------------------
(* Settings of representation do not change what generated code does.         *)
(*                                                                            *)
(* An item is a document with what the programs of one language did with it   *)
(* which were generated from variants of one schema: the outcomes are the     *)
(* same up to the representation, i.e. there is a single one.                 *)
EXTENDS MapryJudge

\* What may not depend on the settings. The order in which a Go program visits
\* objects is not determined, so that neither is its first error.
Outcome(lang, r) ==
  [crash |-> r.crash # "", rejected |-> r.errs # <<>>, errs |-> IF lang = "go" THEN <<>> ELSE r.errs, written |-> r.written]
Differs(a, b) == {f \in {"crash", "rejected", "errs", "written"} : a[f] # b[f]}
BadNeutral(it) ==
  LET o(j) == Outcome(it.lang, it.runs[j])
  IN {it.runs[j].v \o " (" \o it.lang \o ") differs from " \o it.runs[1].v \o " in " \o ToString(Differs(o(1), o(j))) :
        j \in {k \in 1..Len(it.runs) : o(k) # o(1)}}
=============================================================================
