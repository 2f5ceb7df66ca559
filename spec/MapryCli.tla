------------------------------ MODULE MapryCli ------------------------------
(* The command line tool as a state machine: a user puts schemas in place,    *)
(* keeps files of their own, and runs the tool; a run either writes all files *)
(* of a language or none.                                                     *)
(*                                                                            *)
(* Files is a function from paths to contents; a content is an opaque text,   *)
(* "dir" stands for a directory in the way. A run may face a limit on the     *)
(* size of files (as on a full disk).                                         *)
(* What a run writes is given by the schema in place (Content). Used in three *)
(* ways: exhaustively on a small universe (CliSpec with Sim = FALSE), to       *)
(* simulate histories which are replayed on the tool (Sim = TRUE), and to     *)
(* judge what the tool did in them (MapryCliRun).                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS CliFile, Depth, Sim

Input == JsonDeserialize(CliFile)
Variants == Input.variants    \* name -> [there, valid, langs, files: lang -> file -> content]
Dirs == Input.dirs            \* name -> [at, usable]
OwnNames == {Input.own[j] : j \in 1..Len(Input.own)}
Langs == {"py", "go", "cpp"}

\* The files which the documentation promises for a language.
FilesOf(lang) ==
  CASE lang = "py" -> {"__init__.py", "parse.py", "fromjsonable.py", "tojsonable.py"}
    [] lang = "go" -> {"types.go", "parse.go", "from_jsonable.go", "from_jsonable_test.go",
                       "to_jsonable.go", "to_jsonable_test.go"}
    [] lang = "cpp" -> {"types.h", "parse.h", "parse.cpp", "jsoncpp.h", "jsoncpp.cpp"}
AllFiles == UNION {FilesOf(l) : l \in Langs}
\* The languages do not get in each other's way.
ASSUME \A a, b \in Langs : a # b => FilesOf(a) \cap FilesOf(b) = {}

PathIn(dir, name) == Dirs[dir].at \o "/" \o name
LangsOf(v) == {Variants[v].langs[j] : j \in 1..Len(Variants[v].langs)}
Content(v, lang, name) == Variants[v].files[lang][name]

Put(fs, path, c) == [p \in DOMAIN fs \cup {path} |-> IF p = path THEN c ELSE fs[p]]
Without(fs, paths) == [p \in DOMAIN fs \ paths |-> fs[p]]

At(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE "none"
Size(c) == IF c \in DOMAIN Input.sizes THEN Input.sizes[c] ELSE 0
Targets(op) == {PathIn(op.dir, n) : n \in FilesOf(op.lang)}

\* A run succeeds exactly if this holds.
Succeeds(fs, v, op) ==
  /\ op.op = "run"
  /\ Variants[v].there /\ Variants[v].valid
  /\ op.lang \in LangsOf(v)
  /\ Dirs[op.dir].usable
  /\ \A p \in Targets(op) : At(fs, p) # "dir"
  /\ op.limit # 0 => \A n \in FilesOf(op.lang) : Size(Content(v, op.lang, n)) <= op.limit

\* The files after a step; v is the schema in place.
After(fs, v, op) ==
  CASE op.op = "run" /\ Succeeds(fs, v, op) ->
         LET new == {PathIn(op.dir, n) : n \in FilesOf(op.lang)}
             name(p) == CHOOSE n \in FilesOf(op.lang) : PathIn(op.dir, n) = p
         IN [p \in DOMAIN fs \cup new |-> IF p \in new THEN Content(v, op.lang, name(p)) ELSE fs[p]]
    [] op.op = "own" -> Put(fs, PathIn(op.dir, op.name), op.content)
    [] op.op = "block" -> Put(fs, PathIn(op.dir, op.name), "dir")
    [] op.op = "drop" -> Without(fs, {PathIn(op.dir, op.name)})
    [] op.op = "clean" -> Without(fs, {PathIn(op.dir, n) : n \in OwnNames \cup AllFiles})
    [] OTHER -> fs
SchemaAfter(v, op) == IF op.op = "schema" THEN op.v ELSE v

-----------------------------------------------------------------------------
VARIABLES files, schema, fresh, hist, ended
vars == <<files, schema, fresh, hist, ended>>

\* (The state is mentioned so that TLC draws anew in every step.)
Pick(set) == IF Sim /\ set # {} /\ Len(hist) > 0 THEN {RandomElement(set)} ELSE set
Steps == IF Sim THEN Len(hist) ELSE 0
\* What a user may do to files of their own.
Usable == {d \in DOMAIN Dirs : Dirs[d].usable}
Ops ==
  UNION {{[op |-> "schema", v |-> v] : v \in Pick(DOMAIN Variants)},
         {[op |-> "own", dir |-> d, name |-> n, content |-> "own"] : d \in Pick(Usable), n \in Pick(OwnNames \cup AllFiles)},
         {[op |-> "drop", dir |-> d, name |-> n] : d \in Pick(Usable), n \in Pick(OwnNames \cup AllFiles)},
         {[op |-> "block", dir |-> d, name |-> n] : d \in Pick(Usable), n \in Pick(AllFiles)},
         {[op |-> "clean", dir |-> d] : d \in Pick(Usable)},
         {[op |-> "usage"]}}
\* Limits which the earlier versions of the files respect, and which are met or missed barely.
Limits(l, d) ==
  LET sizes == IF l \in LangsOf(schema) /\ Variants[schema].there /\ Variants[schema].valid
               THEN {Size(Content(schema, l, n)) : n \in FilesOf(l)} ELSE {}
      old == {Size(At(files, PathIn(d, n))) : n \in FilesOf(l)}
  IN {x \in sizes \cup {y - 1 : y \in sizes} : x > 0 /\ \A o \in old : o <= x}
Runs == {[op |-> "run", lang |-> l, dir |-> d, limit |-> 0] : l \in Pick(Langs), d \in Pick(DOMAIN Dirs)}
LimitedRuns ==
  UNION {{[op |-> "run", lang |-> l, dir |-> d, limit |-> x] : x \in Pick(Limits(l, d))} : l \in Pick(Langs), d \in Pick(Usable)}

\* The variant last written to each place and language, as long as the user did not interfere.
FreshAfter(f, fs, v, op) ==
  CASE op.op = "run" /\ Succeeds(fs, v, op) ->
         [x \in DOMAIN f |-> IF x = <<Dirs[op.dir].at, op.lang>> THEN v ELSE f[x]]
    [] op.op \in {"own", "drop", "block"} ->
         [x \in DOMAIN f |-> IF x[1] = Dirs[op.dir].at /\ op.name \in FilesOf(x[2]) THEN "" ELSE f[x]]
    [] op.op = "clean" -> [x \in DOMAIN f |-> IF x[1] = Dirs[op.dir].at THEN "" ELSE f[x]]
    [] OTHER -> f

Init ==
  /\ files = [p \in {} |-> ""]
  /\ schema \in DOMAIN Variants
  /\ fresh = [x \in {Dirs[d].at : d \in DOMAIN Dirs} \X Langs |-> ""]
  /\ hist = IF Sim THEN <<[op |-> "schema", v |-> schema]>> ELSE <<>>
  /\ ended = FALSE

Do(op) ==
  /\ files' = After(files, schema, op)
  /\ schema' = SchemaAfter(schema, op)
  /\ fresh' = FreshAfter(fresh, files, schema, op)
  /\ hist' = IF Sim THEN Append(hist, op) ELSE hist
  /\ UNCHANGED ended
Next ==
  \/ /\ Steps < Depth
     /\ \/ \E op \in Ops : Do(op)
        \/ \E op \in Runs : Do(op)
        \/ \E op \in LimitedRuns : Do(op)
        \/ Sim /\ \E op \in Runs : Do(op)
        \/ Sim /\ \E op \in Runs : Do(op)
  \/ /\ Sim /\ Steps = Depth /\ ~ended
     /\ PrintT("HIST " \o ToJson(hist))
     /\ ended' = TRUE /\ UNCHANGED <<files, schema, fresh, hist>>
CliSpec == Init /\ [][Next]_vars

Shallow == TLCGet("level") <= Depth

\* What was written last is what is there, completely.
Whole ==
  \A x \in DOMAIN fresh : fresh[x] # "" =>
    \A n \in FilesOf(x[2]) :
      /\ (x[1] \o "/" \o n) \in DOMAIN files
      /\ files[x[1] \o "/" \o n] = Content(fresh[x], x[2], n)
\* Nothing is there which neither a run of a valid schema nor the user put there.
Known ==
  \A p \in DOMAIN files :
    \/ files[p] \in {"own", "dir"}
    \/ \E v \in DOMAIN Variants : Variants[v].valid /\
         \E l \in LangsOf(v) : \E n \in FilesOf(l) : files[p] = Content(v, l, n)
\* A run changes nothing but files of its language in its directory.
Confined ==
  [][\A p \in (DOMAIN files) \cup (DOMAIN files') :
       (IF p \in DOMAIN files THEN files[p] ELSE "") # (IF p \in DOMAIN files' THEN files'[p] ELSE "") =>
         \E d \in DOMAIN Dirs : Dirs[d].usable /\ \E n \in OwnNames \cup AllFiles : p = PathIn(d, n)]_vars
=============================================================================
