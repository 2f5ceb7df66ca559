---------------------------- MODULE MapryHistory ----------------------------
(* A client with an object graph in memory: it makes instances, registers,   *)
(* removes, renames and re-links them, sets and clears properties, writes    *)
(* the graph as JSON and reads it back.                                      *)
(*                                                                           *)
(* Objects live on a heap; a reference is a handle. A property holds a JSON  *)
(* tree in which references are leaves [k |-> "ref", h |-> handle], or it is *)
(* unset ([k |-> "none"]). The values to choose from come from a pool of     *)
(* templates in which a reference is a hole [k |-> "hole", cls, n].          *)
(*                                                                           *)
(* Used in two ways: exhaustively on small pools (the invariants below), and *)
(* in simulation, to make histories which are replayed on generated code     *)
(* (Sim, the history is then printed together with what must come out).      *)
EXTENDS MapryValue, Json

CONSTANTS File, MaxObjects, Depth, Sim

Input == JsonDeserialize(File)
S == Input.schema
IdPool == Input.ids      \* class -> sequence of [s, c]
Pool == Input.pool       \* composite ("*": the graph) -> property -> templates

VARIABLES heap, gp, regs, saved, hist, last
vars == <<heap, gp, regs, saved, hist, last>>

Unset == [k |-> "none"]
Pick(set) == IF Sim /\ set # {} THEN {RandomElement(set)} ELSE set

ClassNames == Classes(S)
PropsOf(comp) == IF comp = "*" THEN S.graph.props ELSE S.classes[comp].props
PropNames(comp) == {PropsOf(comp)[j].name : j \in 1..Len(PropsOf(comp))}
PropOf(comp, n) == PropsOf(comp)[CHOOSE j \in 1..Len(PropsOf(comp)) : PropsOf(comp)[j].name = n]
Handles == 1..Len(heap)
KeysOf(cls) == {regs[cls][j].n : j \in 1..Len(regs[cls])}
Taken(cls) == KeysOf(cls) \cup {heap[regs[cls][j].h].id.s : j \in 1..Len(regs[cls])}
Registered(cls) == {regs[cls][j].h : j \in 1..Len(regs[cls])}
Live == UNION {Registered(cls) : cls \in ClassNames}

\* The owners of properties: handle 0 is the graph.
Owners == {0} \cup Live
CompOf(o) == IF o = 0 THEN "*" ELSE heap[o].cls
PropVal(o, n) == IF o = 0 THEN gp[n] ELSE heap[o].m[n]

RECURSIVE Holes(_), Fill(_, _), RefsIn(_)
Holes(v) ==
  CASE v.k = "hole" -> {<<v.cls, v.n>>}
    [] v.k = "arr" -> UNION {Holes(v.e[j]) : j \in 1..Len(v.e)}
    [] v.k = "obj" -> UNION {Holes(v.m[j].v) : j \in 1..Len(v.m)}
    [] OTHER -> {}
Fill(v, f) ==
  CASE v.k = "hole" -> [k |-> "ref", h |-> f[<<v.cls, v.n>>]]
    [] v.k = "arr" -> [v EXCEPT !.e = [j \in 1..Len(v.e) |-> Fill(v.e[j], f)]]
    [] v.k = "obj" -> [v EXCEPT !.m = [j \in 1..Len(v.m) |-> [v.m[j] EXCEPT !.v = Fill(@, f)]]]
    [] OTHER -> v
RefsIn(v) ==
  CASE v.k = "ref" -> {v.h}
    [] v.k = "arr" -> UNION {RefsIn(v.e[j]) : j \in 1..Len(v.e)}
    [] v.k = "obj" -> UNION {RefsIn(v.m[j].v) : j \in 1..Len(v.m)}
    [] OTHER -> {}
Fills(v) ==
  LET hs == Holes(v) IN
  IF Sim
  THEN IF \A x \in hs : Registered(x[1]) # {}
       THEN {[x \in hs |-> RandomElement(Registered(x[1]))]} ELSE {}
  ELSE {f \in [hs -> Live] : \A x \in hs : f[x] \in Registered(x[1])}

-----------------------------------------------------------------------------
\* Writing.
RECURSIVE Enc(_, _)
Enc(v, hp) ==
  CASE v.k = "ref" -> [k |-> "str", s |-> hp[v.h].id.s, c |-> hp[v.h].id.c]
    [] v.k = "arr" -> [v EXCEPT !.e = [j \in 1..Len(v.e) |-> Enc(v.e[j], hp)]]
    [] v.k = "obj" -> [v EXCEPT !.m = [j \in 1..Len(v.m) |-> [v.m[j] EXCEPT !.v = Enc(@, hp)]]]
    [] OTHER -> v

EncProps(comp, m, hp) ==
  LET ps == SelectSeq(PropsOf(comp), LAMBDA p : m[p.name].k # "none")
  IN [j \in 1..Len(ps) |-> [n |-> ps[j].json, r |-> ps[j].json, v |-> Enc(m[ps[j].name], hp)]]
EncReg(cls, reg, hp) ==
  [k |-> "obj", m |-> [j \in 1..Len(reg) |->
     [n |-> reg[j].n, c |-> reg[j].c, r |-> reg[j].n,
      v |-> [k |-> "obj", m |-> EncProps(cls, hp[reg[j].h].m, hp)]]]]
EncGraph(g, rs, hp) ==
  [k |-> "obj",
   m |-> EncProps("*", g, hp)
         \o [j \in 1..Len(S.corder) |->
               [n |-> S.classes[S.corder[j]].key, r |-> "",
                v |-> EncReg(S.corder[j], rs[S.corder[j]], hp)]]]

Mismatch == \E cls \in ClassNames : \E j \in 1..Len(regs[cls]) :
              regs[cls][j].n # heap[regs[cls][j].h].id.s
Dangling == \E o \in Owners : \E n \in PropNames(CompOf(o)) : ~(RefsIn(PropVal(o, n)) \subseteq Live)
MissingProps == {<<o, n>> \in UNION {{<<o, n>> : n \in PropNames(CompOf(o))} : o \in Owners} :
                   ~PropOf(CompOf(o), n).opt /\ PropVal(o, n).k = "none"}
Complete == MissingProps = {} /\ ~Dangling

\* Reading: the objects of the document, in its order.
RECURSIVE Dec(_, _, _)
Dec(t, v, at) ==
  CASE t.k = "class" -> [k |-> "ref", h |-> at[<<t.name, v.s>>]]
    [] t.k = "array" -> [v EXCEPT !.e = [j \in 1..Len(v.e) |-> Dec(t.v, v.e[j], at)]]
    [] t.k = "map" -> [v EXCEPT !.m = [j \in 1..Len(v.m) |-> [v.m[j] EXCEPT !.v = Dec(t.v, @, at)]]]
    [] t.k = "embed" ->
         LET ps == S.embeds[t.name].props
             pt(n) == ps[CHOOSE i \in 1..Len(ps) : ps[i].json = n].t
         IN [v EXCEPT !.m = [j \in 1..Len(v.m) |-> [v.m[j] EXCEPT !.v = Dec(pt(v.m[j].n), @, at)]]]
    [] OTHER -> v
DecProps(comp, v, at) ==
  [n \in PropNames(comp) |->
     LET p == PropOf(comp, n) IN IF HasKey(v, p.json) THEN Dec(p.t, Get(v, p.json), at) ELSE Unset]

RECURSIVE Listed(_, _)
Listed(doc, j) ==    \* <<class, entry>> of all the instances
  IF j > Len(S.corder) THEN <<>>
  ELSE LET cls == S.corder[j]  m == Get(doc, S.classes[cls].key).m
       IN [i \in 1..Len(m) |-> <<cls, m[i]>>] \o Listed(doc, j + 1)
DecHeap(doc) ==
  LET es == Listed(doc, 1)
      at == [x \in {<<es[i][1], es[i][2].n>> : i \in 1..Len(es)} |->
               CHOOSE i \in 1..Len(es) : es[i][1] = x[1] /\ es[i][2].n = x[2]]
  IN [hp |-> [i \in 1..Len(es) |-> [cls |-> es[i][1], id |-> [s |-> es[i][2].n, c |-> es[i][2].c],
                                    m |-> DecProps(es[i][1], es[i][2].v, at)]],
      g |-> DecProps("*", doc, at),
      rs |-> [cls \in ClassNames |->
                LET here == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : es[i][1] = cls)
                IN [j \in 1..Len(here) |-> [n |-> es[here[j]][2].n, c |-> es[here[j]][2].c, h |-> here[j]]]]]

-----------------------------------------------------------------------------
StepsDone == IF Sim THEN Len(hist) ELSE IF hist = <<>> THEN 0 ELSE hist[1] + 1
Tick(op) == IF Sim THEN hist' = Append(hist, op) ELSE hist' = <<StepsDone>>

Init ==
  /\ heap = <<>>
  /\ gp = [n \in PropNames("*") |-> Unset]
  /\ regs = [cls \in ClassNames |-> <<>>]
  /\ saved = Unset /\ hist = <<>> /\ last = "init"

\* A new registered instance (its properties are yet to be set).
Add ==
  \E cls \in Pick(IF Complete \/ \A c \in ClassNames : regs[c] # <<>> THEN ClassNames
                  ELSE {c \in ClassNames : regs[c] = <<>>}) :
    /\ Len(heap) < MaxObjects
    /\ \E id \in Pick({IdPool[cls][j] : j \in 1..Len(IdPool[cls])} \ {x \in {IdPool[cls][j] : j \in 1..Len(IdPool[cls])} : x.s \in Taken(cls)}) :
         /\ heap' = Append(heap, [cls |-> cls, id |-> id, m |-> [n \in PropNames(cls) |-> Unset]])
         /\ regs' = [regs EXCEPT ![cls] = Append(@, [n |-> id.s, c |-> id.c, h |-> Len(heap) + 1])]
         /\ Tick([op |-> "add", cls |-> cls, id |-> id.s, h |-> Len(heap) + 1])
         /\ last' = "add" /\ UNCHANGED <<gp, saved>>

Assign(o, n, v) ==
  IF o = 0 THEN gp' = [gp EXCEPT ![n] = v] /\ UNCHANGED heap
  ELSE heap' = [heap EXCEPT ![o].m[n] = v] /\ UNCHANGED gp

SetTo(o, n) ==
  LET cs == Pool[CompOf(o)][n] IN
  \E j \in Pick(1..Len(cs)) : \E f \in Fills(cs[j]) :
    /\ Assign(o, n, Fill(cs[j], f))
    /\ Tick([op |-> "set", h |-> o, cls |-> CompOf(o), prop |-> n, cand |-> j,
             fill |-> {<<x[1], x[2], f[x]>> : x \in DOMAIN f}])
    /\ last' = "set" /\ UNCHANGED <<regs, saved>>

Settable == UNION {{<<o, n>> : n \in PropNames(CompOf(o))} : o \in Owners}
Set == \E x \in Pick(Settable) : SetTo(x[1], x[2])
SetMissing == \E x \in Pick(MissingProps) : SetTo(x[1], x[2])

Clear ==
  \E x \in Pick({y \in Settable : PropOf(CompOf(y[1]), y[2]).opt /\ PropVal(y[1], y[2]).k # "none"}) :
    /\ Assign(x[1], x[2], Unset)
    /\ Tick([op |-> "clear", h |-> x[1], cls |-> CompOf(x[1]), prop |-> x[2]])
    /\ last' = "clear" /\ UNCHANGED <<regs, saved>>

\* Only an instance to which nothing else refers is removed.
Referenced(h) == \E o \in Owners \ {h} : \E n \in PropNames(CompOf(o)) : h \in RefsIn(PropVal(o, n))
Remove ==
  \E h \in Pick({h \in Live : ~Referenced(h)}) :
    LET cls == heap[h].cls
        key == (CHOOSE j \in 1..Len(regs[cls]) : regs[cls][j].h = h)
    IN /\ regs' = [regs EXCEPT ![cls] = SelectSeq(@, LAMBDA e : e.h # h)]
       /\ Tick([op |-> "remove", cls |-> cls, h |-> h, key |-> regs[cls][key].n])
       /\ last' = "remove" /\ UNCHANGED <<heap, gp, saved>>

\* A removed instance comes back.
Readd ==
  \E h \in Pick({h \in Handles \ Live :
                  /\ heap[h].id.s \notin Taken(heap[h].cls)
                  /\ \A n \in PropNames(heap[h].cls) :
                       /\ RefsIn(heap[h].m[n]) \subseteq (Live \cup {h})
                       /\ heap[h].m[n].k # "none" \/ PropOf(heap[h].cls, n).opt}) :
    /\ regs' = [regs EXCEPT ![heap[h].cls] = Append(@, [n |-> heap[h].id.s, c |-> heap[h].id.c, h |-> h])]
    /\ Tick([op |-> "readd", cls |-> heap[h].cls, h |-> h, key |-> heap[h].id.s])
    /\ last' = "readd" /\ UNCHANGED <<heap, gp, saved>>

\* The identifier changes, the key does not: the graph is not valid any more.
Rename ==
  \E h \in Pick(Live) :
    \E id \in Pick({IdPool[heap[h].cls][j] : j \in 1..Len(IdPool[heap[h].cls])}) :
      /\ ~Mismatch
      /\ id.s \notin KeysOf(heap[h].cls)
      /\ heap' = [heap EXCEPT ![h].id = id]
      /\ Tick([op |-> "rename", cls |-> heap[h].cls, h |-> h, id |-> id.s])
      /\ last' = "rename" /\ UNCHANGED <<gp, regs, saved>>

\* The key follows the identifier.
Rekey ==
  \E cls \in ClassNames : \E j \in 1..Len(regs[cls]) :
    LET h == regs[cls][j].h  id == heap[h].id IN
    /\ regs[cls][j].n # id.s
    /\ regs' = [regs EXCEPT ![cls] = SelectSeq(@, LAMBDA e : e.h # h) \o <<[n |-> id.s, c |-> id.c, h |-> h]>>]
    /\ Tick([op |-> "rekey", cls |-> cls, h |-> h, key |-> id.s, old |-> regs[cls][j].n])
    /\ last' = "rekey" /\ UNCHANGED <<heap, gp, saved>>

Save ==
  /\ last \notin {"save", "refused"}
  /\ IF Mismatch
     THEN /\ saved' = saved /\ last' = "refused"
          /\ Tick([op |-> "save", refused |-> TRUE])
     ELSE /\ saved' = EncGraph(gp, regs, heap) /\ last' = "save"
          /\ Tick([op |-> "save", refused |-> FALSE, doc |-> EncGraph(gp, regs, heap)])
  /\ UNCHANGED <<heap, gp, regs>>

Load ==
  /\ saved # Unset /\ last # "load"
  /\ LET d == DecHeap(saved) IN
     /\ heap' = d.hp /\ gp' = d.g /\ regs' = d.rs
     /\ Tick([op |-> "load", doc |-> saved,
              at |-> {<<d.hp[h].cls, d.hp[h].id.s, h>> : h \in 1..Len(d.hp)}])
  /\ last' = "load" /\ UNCHANGED saved

Next ==
  /\ StepsDone < Depth
  /\ IF ~Complete
     THEN \* the client is still building
          \/ SetMissing
          \/ (\E cls \in ClassNames : regs[cls] = <<>>) /\ Add
          \/ Load
     ELSE \/ Add \/ Set \/ Set \/ Clear \/ Remove \/ Readd \/ Rename \/ Rekey \/ Save \/ Save \/ Load
\* The end of a simulated history.
End ==
  /\ Sim /\ StepsDone = Depth /\ last # "end"
  /\ PrintT("HIST " \o ToJson(hist))
  /\ last' = "end" /\ UNCHANGED <<heap, gp, regs, saved, hist>>
Spec == Init /\ [][Next \/ End]_vars

-----------------------------------------------------------------------------
(* What the specification itself must guarantee.                             *)
\* Valid graphs are written as documents which all the languages accept.
WrittenConforms ==
  last = "save" => \A lang \in (IF Sim THEN {"py"} ELSE {"py", "go", "cpp"}) : DocViol(S, saved, "#", lang) = {}
\* Reading and writing are inverse to each other.
Roundtrip ==
  last = "load" => /\ DifferGraph(S, saved, EncGraph(gp, regs, heap), "py") = {}
                   /\ ~Mismatch /\ Complete
\* What was written without a change since reads back as the same graph.
Norm(g, rs, hp) == EncGraph(g, rs, hp)
Stable == last = "save" => LET d == DecHeap(saved) IN Norm(d.g, d.rs, d.hp) = Norm(gp, regs, heap)
SaveKeeps == [][last' \in {"save", "refused"} => UNCHANGED <<heap, gp, regs>>]_vars
=============================================================================
