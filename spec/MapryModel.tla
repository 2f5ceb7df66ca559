------------------------------ MODULE MapryModel ------------------------------
(* The object model which stands for a description of a schema.               *)
(*                                                                            *)
(* An item holds the description (a JSON value) and the model observed: all   *)
(* of its records are compared with those stated here. A type which refers to *)
(* a composite carries "same": the object is that of the model.               *)
EXTENDS MaprySchema

Given(v, n, default) == IF HasMember(v, n) THEN Member(v, n).s ELSE default
Truth(v, n) == HasMember(v, n) /\ Member(v, n).b

Num(v) == [neg |-> v.neg, i |-> v.i, f |-> v.f]
NumOf(v, n) == IF HasMember(v, n) THEN <<Num(Member(v, n))>> ELSE <<>>
TextOf(v, n) == IF HasMember(v, n) THEN <<Member(v, n).s>> ELSE <<>>

DefaultFormat == [date |-> "%Y-%m-%d", time |-> "%H:%M:%S", datetime |-> "%Y-%m-%dT%H:%M:%SZ"]

RECURSIVE TypeModel(_, _, _)
TypeModel(t, classes, embeds) ==
  LET type == Member(t, "type").s IN
  CASE type \in {"integer", "float"} ->
         [k |-> type, min |-> NumOf(t, "minimum"), max |-> NumOf(t, "maximum"),
          xmin |-> Truth(t, "exclusive_minimum"), xmax |-> Truth(t, "exclusive_maximum")]
    [] type \in {"string", "path"} -> [k |-> type, pattern |-> TextOf(t, "pattern")]
    [] type \in {"date", "time", "datetime"} -> [k |-> type, format |-> Given(t, "format", DefaultFormat[type])]
    [] type \in {"boolean", "time_zone", "duration"} -> [k |-> type]
    [] type = "array" ->
         [k |-> type, min |-> NumOf(t, "minimum_size"), max |-> NumOf(t, "maximum_size"),
          v |-> TypeModel(Member(t, "values"), classes, embeds)]
    [] type = "map" -> [k |-> type, v |-> TypeModel(Member(t, "values"), classes, embeds)]
    [] type \in classes -> [k |-> "class", name |-> type, same |-> TRUE]
    [] type \in embeds -> [k |-> "embed", name |-> type, same |-> TRUE]

PropsModel(c, ref, classes, embeds) ==
  LET ps == Properties(c) IN
  [i \in 1..Len(ps) |->
     [key |-> ps[i].n, name |-> ps[i].n, json |-> JsonName(ps[i]), description |-> Member(ps[i].v, "description").s,
      optional |-> Truth(ps[i].v, "optional"), ref |-> ref \o "/" \o ps[i].n, owned |-> TRUE,
      t |-> TypeModel(ps[i].v, classes, embeds)]]

SettingsModel(doc, lang, keys) ==
  IF HasMember(doc, lang)
  THEN <<[k \in keys |-> IF k = "indention"
                         THEN Given(Member(doc, lang), k, IF lang = "py" THEN "    " ELSE "  ")
                         ELSE Member(Member(doc, lang), k).s]>>
  ELSE <<>>

SchemaModel(doc) ==
  LET cs == Items2(doc, "classes")
      es == Items2(doc, "embeds")
      classes == {NameOf(cs[i]) : i \in 1..Len(cs)}
      embeds == {NameOf(es[i]) : i \in 1..Len(es)}
  IN [graph |-> [name |-> NameOf(doc), description |-> Member(doc, "description").s, ref |-> "#",
                 props |-> PropsModel(doc, "#", classes, embeds)],
      classes |-> [i \in 1..Len(cs) |->
                     [key |-> NameOf(cs[i]), name |-> NameOf(cs[i]), description |-> Member(cs[i], "description").s,
                      plural |-> PluralOf(cs[i]), id_pattern |-> TextOf(cs[i], "id_pattern"),
                      ref |-> PlaceI("#", "classes", i), props |-> PropsModel(cs[i], PlaceI("#", "classes", i), classes, embeds)]],
      embeds |-> [i \in 1..Len(es) |->
                    [key |-> NameOf(es[i]), name |-> NameOf(es[i]), description |-> Member(es[i], "description").s,
                     ref |-> PlaceI("#", "embeds", i), props |-> PropsModel(es[i], PlaceI("#", "embeds", i), classes, embeds)]],
      cpp |-> SettingsModel(doc, "cpp", {"namespace", "path_as", "optional_as", "datetime_library", "indention"}),
      go |-> SettingsModel(doc, "go", {"package"}),
      py |-> SettingsModel(doc, "py", {"module_name", "path_as", "timezone_as", "indention"})]

Elements(s) == {s[i] : i \in 1..Len(s)}

\* Two records of the model; without the order of properties if the
\* description has none.
SameComposite(a, b, ordered) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A f \in DOMAIN a \ {"props"} : a[f] = b[f]
  /\ IF ordered THEN a.props = b.props
     ELSE Len(a.props) = Len(b.props) /\ Elements(a.props) = Elements(b.props)
SameComposites(as, bs, ordered) ==
  Len(as) = Len(bs) /\ \A i \in 1..Len(as) : SameComposite(as[i], bs[i], ordered)

BadModel(item) ==
  IF item.crash # "" THEN {item.crash}
  ELSE LET m == SchemaModel(item.doc) IN
       (IF SameComposite(m.graph, item.got.graph, item.ordered) THEN {} ELSE {"graph"})
       \cup (IF SameComposites(m.classes, item.got.classes, item.ordered) THEN {} ELSE {"classes"})
       \cup (IF SameComposites(m.embeds, item.got.embeds, item.ordered) THEN {} ELSE {"embeddables"})
       \cup {l \in {"cpp", "go", "py"} : m[l] # item.got[l]}
       \cup (IF item.got.twice THEN {} ELSE {"another model when parsed again"})
=============================================================================
