----------------------------- MODULE MapryTrace -----------------------------
(* Validation of recorded executions of generated code.                      *)
(*                                                                           *)
(* An item is a document given to programs generated from a schema; a run is *)
(* one call: language, capacity of the error container, the errors, and - if *)
(* there were none - the observed graph and what was written from it.        *)
(* Each step of the specification takes the next item of one of the chunks   *)
(* of the trace (the chunks are independent) and states every clause which   *)
(* the recorded runs of the item break. The verdict is total: all items are  *)
(* visited, and each broken clause is named.                                 *)
EXTENDS MapryValue, Json

CONSTANTS File, NChunks

Input == JsonDeserialize(File)
Schemas == Input.schemas
Items == Input.items

VARIABLES chunk, pos

ErrMatches(e, v) ==
  /\ e.ref = v.ref
  /\ v.prop = "" \/ \E j \in 1..Len(e.w) : e.w[j] = v.prop

Clause(name, detail) == {<<name, detail>>}
IfNot(ok, name, detail) == IF ok THEN {} ELSE Clause(name, detail)

HasComposites(s) == DOMAIN s.classes # {} \/ DOMAIN s.embeds # {}

\* Go: a nested parser refuses to start with errors in the container (a known
\* deviation, see DESIGN.md).
Reentry(s, run, vs) ==
  run.lang = "go" /\ run.crash = "reentry" /\ run.cap # 1 /\ vs # {} /\ HasComposites(s)

\* Clauses about the errors of a run.
ErrorClauses(s, doc, ref, run, vs) ==
  LET sure == SureOnes(vs)
      extra == ExtraIds(s, doc, run.lang)
      n == Len(run.errs)
  IN IfNot(sure = {} \/ n > 0, "accepted", ToString(CHOOSE v \in sure : TRUE))
     \cup IfNot(vs # {} \/ n = 0, "rejected", IF n = 0 THEN "" ELSE run.errs[1].ref)
     \cup IfNot(n <= run.cap, "over capacity", ToString(n))
     \cup (IF sure # {} /\ n > 0 /\ n < Min2(run.cap, Cardinality(sure) + extra)
           THEN Clause("too few errors", ToString(<<n, Cardinality(sure) + extra>>)) ELSE {})
     \cup IfNot(vs = {} \/ n <= Cardinality(vs) + extra, "too many errors",
                ToString(<<n, Cardinality(vs) + extra>>))
     \cup (IF vs = {} THEN {}
           ELSE UNION {IfNot(\E v \in vs : ErrMatches(run.errs[j], v), "untrue error",
                             run.errs[j].ref) : j \in 1..n})
     \cup (IF n > 0 /\ run.cap >= Cardinality(vs) + extra
           THEN UNION {IfNot(\E j \in 1..n : ErrMatches(run.errs[j], v), "missed violation",
                             v.ref \o " " \o v.prop) : v \in sure}
           ELSE {})

\* Clauses about the graph and the written JSON of an accepting run.
GraphClauses(s, doc, run) ==
  (IF run.graph = <<>> THEN {}
   ELSE LET w == WrongGraph(s, doc, run.graph[1], run.lang) IN
        IfNot(w = {}, "wrong value", ToString(w)))
  \cup (IF run.ser = <<>> THEN {}
        ELSE LET d == DifferGraph(s, doc, run.ser[1], run.lang) IN
             IfNot(d = {}, "written differently", ToString(d)))
  \cup UNION {Clause(run.notes[j], "") : j \in 1..Len(run.notes)}

\* A step of a client (MapryHistory): a graph was written or read back.
HistClauses(s, item, run) ==
  IF run.crash # "" THEN Clause("crash", run.crash)
  ELSE IF item.refuse
       THEN IfNot(run.refusal # "", "not refused", "")
            \cup UNION {Clause(run.notes[j], "") : j \in 1..Len(run.notes)}
  ELSE IfNot(run.refusal = "", "refused", run.refusal)
       \cup IfNot(run.errs = <<>>, "written JSON rejected", ToString(run.errs))
       \cup (IF run.refusal = "" /\ run.errs = <<>> THEN GraphClauses(s, item.doc, run) ELSE {})

RunClauses(s, item, run) ==
  LET vs == DocViol(s, item.doc, item.ref, run.lang) IN
  IF "hist" \in DOMAIN item THEN HistClauses(s, item, run)
  ELSE IF run.crash # "" THEN
       IF Reentry(s, run, vs) THEN {} ELSE Clause("crash", run.crash)
  ELSE ErrorClauses(s, item.doc, item.ref, run, vs)
       \cup (IF run.errs = <<>> /\ vs = {} THEN GraphClauses(s, item.doc, run) ELSE {})

\* All the languages together (for documents in their common range).
Accepts(run) == run.errs = <<>>
TogetherClauses(s, item) ==
  IF "hist" \in DOMAIN item THEN {} ELSE
  LET rs == {j \in 1..Len(item.runs) : item.runs[j].crash = ""}
  IN IF \A i, j \in rs : Accepts(item.runs[i]) = Accepts(item.runs[j]) THEN {}
     ELSE IF CommonDoc(s, item.doc) THEN Clause("disagree", "") ELSE {}

ItemClauses(item) ==
  LET s == Schemas[item.s] IN
  UNION {{<<item.id, item.runs[j].lang, item.runs[j].cap, c[1], c[2]>> :
            c \in RunClauses(s, item, item.runs[j])} : j \in 1..Len(item.runs)}
  \cup {<<item.id, "all", 0, c[1], c[2]>> : c \in TogetherClauses(s, item)}

Size == (Len(Items) + NChunks - 1) \div NChunks
Last(ch) == Min2(ch * Size, Len(Items))

Init == chunk \in 1..NChunks /\ pos = (chunk - 1) * Size
Next ==
  /\ pos < Last(chunk)
  /\ pos' = pos + 1
  /\ chunk' = chunk
  /\ LET bad == ItemClauses(Items[pos + 1]) IN
     /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(bad))
     /\ IF pos + 1 < Last(chunk) THEN TRUE ELSE PrintT("DONE " \o ToString(chunk) \o " " \o ToString(pos + 1))

Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
