----------------------------- MODULE MapryIdents -----------------------------
(* Which identifiers the generated code of a language declares, where, and    *)
(* when they clash with each other, with words of the language or with names  *)
(* the generated code itself relies on.                                       *)
(*                                                                            *)
(* A schema is a record: lang, graph [n, props], classes [n, plural, idre,    *)
(* props], embeds [n, props], parts (of the namespace, module or package),    *)
(* libs (namespaces of the libraries used), bounds and texts (see below).     *)
(* A property is a record [n, opt,   *)
(* emb]: emb is the number of the embeddable which the property holds by      *)
(* itself, not in an array or map; 0 if it holds something else. Names are    *)
(* sequences of code points.                                                  *)
EXTENDS MapryNames, TLC

Table == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "?", "?", "?", "?", "?",
  "?", "?", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
  "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "?", "?",
  "?", "?", "_", "?", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k",
  "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
RECURSIVE Str(_)
Str(n) == IF n = <<>> THEN "" ELSE Table[n[1] - 47] \o Str(Tail(n))

-----------------------------------------------------------------------------
(* Words of the languages *)

PyWords == {"False", "None", "True", "and", "as", "assert", "async", "await", "break",
   "class", "continue", "def", "del", "elif", "else", "except", "finally",
   "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal",
   "not", "or", "pass", "raise", "return", "try", "while", "with", "yield"}

GoWords == {"break", "default", "func", "interface", "select", "case", "defer", "go",
   "map", "struct", "chan", "else", "goto", "package", "switch", "const",
   "fallthrough", "if", "range", "type", "continue", "for", "import", "return",
   "var"}

CppWords == {"alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor",
   "bool", "break", "case", "catch", "char", "char16_t", "char32_t", "class",
   "compl", "const", "constexpr", "const_cast", "continue", "decltype",
   "default", "delete", "do", "double", "dynamic_cast", "else", "enum",
   "explicit", "export", "extern", "false", "float", "for", "friend", "goto",
   "if", "inline", "int", "long", "mutable", "namespace", "new", "noexcept",
   "not", "not_eq", "nullptr", "operator", "or", "or_eq", "private",
   "protected", "public", "register", "reinterpret_cast", "return", "short",
   "signed", "sizeof", "static", "static_assert", "static_cast", "struct",
   "switch", "template", "this", "thread_local", "throw", "true", "try",
   "typedef", "typeid", "typename", "union", "unsigned", "using", "virtual",
   "void", "volatile", "wchar_t", "while", "xor", "xor_eq"}

\* Reserved by later standards or technical specifications: may be refused.
CppLater == {"atomic_cancel", "atomic_commit", "atomic_noexcept", "char8_t", "concept",
   "consteval", "constinit", "co_await", "co_return", "co_yield", "import",
   "module", "reflexpr", "requires", "synchronized"}

\* Macros of the headers of the standard library.
CppMacros == {"BUFSIZ", "EDOM", "EILSEQ", "EOF", "ERANGE", "INFINITY", "NAN", "NULL",
   "WEOF", "errno", "math_errhandling"}

Words_(lang) == CASE lang = "py" -> PyWords [] lang = "go" -> GoWords [] lang = "cpp" -> CppWords \cup CppMacros
Later(lang) == IF lang = "cpp" THEN CppLater ELSE {}

\* Modules the generated Python imports.
PyModules == {"collections", "datetime", "pathlib", "pytz", "re", "typing"}

-----------------------------------------------------------------------------
(* Declarations: [i |-> identifier, o |-> place of its owner] *)

ClassRef(i) == "#/classes/" \o ToString(i - 1)
EmbedRef(i) == "#/embeds/" \o ToString(i - 1)
PropRef(ref, p) == ref \o "/" \o Str(p.n)

Composites(s) ==
  {[n |-> s.graph.n, o |-> "#"]}
  \cup {[n |-> s.classes[i].n, o |-> ClassRef(i)] : i \in 1..Len(s.classes)}
  \cup {[n |-> s.embeds[i].n, o |-> EmbedRef(i)] : i \in 1..Len(s.embeds)}

\* One name space of the generated code is a set of declarations.
Types(s) == {[i |-> Str(TypeName(s.lang, c.n)), o |-> c.o] : c \in Composites(s)}

FieldsOf(s, ps, ref) == {[i |-> Str(FieldName(s.lang, ps[j].n)), o |-> PropRef(ref, ps[j])] : j \in 1..Len(ps)}
Registries(s) == {[i |-> Str(FieldName(s.lang, s.classes[i].plural)), o |-> ClassRef(i)] : i \in 1..Len(s.classes)}

FieldSpaces(s) ==
  {FieldsOf(s, s.graph.props, "#") \cup Registries(s)}
  \cup {FieldsOf(s, s.classes[i].props, ClassRef(i)) : i \in 1..Len(s.classes)}
  \cup {FieldsOf(s, s.embeds[i].props, EmbedRef(i)) : i \in 1..Len(s.embeds)}

Variables_(s) == {[i |-> Str(Lower(c.n)), o |-> c.o] : c \in Composites(s)}

\* Python names functions after the variables, C++ the patterns of identifiers,
\* and Go variables after the registries.
OtherSpaces(s) ==
  CASE s.lang = "py" -> {Variables_(s)}
    [] s.lang = "cpp" -> {{[i |-> Str(Lower(s.classes[i].n)), o |-> ClassRef(i)] :
                           i \in {i \in 1..Len(s.classes) : s.classes[i].idre}}}
    [] s.lang = "go" -> {{[i |-> Str(Camel(s.classes[i].plural)), o |-> ClassRef(i)] : i \in 1..Len(s.classes)}}

Spaces(s) == {Types(s)} \cup FieldSpaces(s) \cup OtherSpaces(s)

-----------------------------------------------------------------------------
(* Conflicts: [why, o |-> places one of which is to be named] *)

Clash(why, o) == [why |-> why, o |-> o]

SameName(s) ==
  UNION {{Clash("same identifier", {d.o, e.o}) : <<d, e>> \in {<<d, e>> \in sp \X sp : d.o # e.o /\ d.i = e.i}} : sp \in Spaces(s)}

Reserved(space, words, why) == {Clash(why, {d.o}) : d \in {d \in space : d.i \in words}}

\* Composites of Go are declared next to functions and types of the library.
GoFunctions(s) ==
  UNION {{[i |-> Str(Ucamel(c.n)) \o "FromJSONable", o |-> c.o], [i |-> Str(Ucamel(c.n)) \o "ToJSONable", o |-> c.o]} : c \in Composites(s)}

ClassFields(s) == UNION {FieldsOf(s, s.classes[i].props, ClassRef(i)) : i \in 1..Len(s.classes)}
GraphFields(s) == FieldsOf(s, s.graph.props, "#") \cup Registries(s)

\* Words which must not occur, by the name space.
Words0(s, words) ==
  Reserved(Types(s), words, "reserved word")
  \cup UNION {Reserved(sp, words, "reserved word") : sp \in FieldSpaces(s)}
  \* arguments of C++ functions are named after the composites
  \cup (IF s.lang = "cpp" THEN Reserved(Variables_(s), words, "reserved word") ELSE {})

Range_(q) == {q[j] : j \in 1..Len(q)}
FieldTypes(s, types) == UNION {Reserved(sp, types, "reserved identifier") : sp \in FieldSpaces(s)}

Reservations(s) ==
  Words0(s, Words_(s.lang))
  \cup Reserved(ClassFields(s), IF s.lang = "go" THEN {"ID"} ELSE {"id"}, "reserved identifier")
  \cup (CASE s.lang = "py" ->
               UNION {Reserved(sp, {"self"}, "reserved identifier") : sp \in FieldSpaces(s)}
               \cup (IF s.classes = <<>> THEN {} ELSE Reserved(GraphFields(s), {"collections"}, "reserved identifier"))
          [] s.lang = "cpp" ->
               Reserved(Types(s), {"Json"}, "reserved identifier")
               \* the fields are declared with these types
               \cup FieldTypes(s, IF "date" \in Range_(s.libs) THEN {"int64_t"} ELSE {"int64_t", "tm"})
          [] s.lang = "go" ->
               Reserved(Types(s), {"Error", "Errors", "NewErrors"}, "reserved identifier")
               \cup {Clash("reserved identifier", {d.o, e.o}) :
                     <<d, e>> \in {<<d, e>> \in Types(s) \X GoFunctions(s) : d.i = e.i}})

Settings(s) ==
  LET bad == CASE s.lang = "py" -> {k \in 1..Len(s.parts) : s.parts[k] \in PyWords \/ (k = 1 /\ s.parts[k] \in PyModules)}
               [] s.lang = "cpp" -> {k \in 1..Len(s.parts) : s.parts[k] \in CppWords \cup CppMacros \cup {"std"}
                                                             \/ (k > 1 /\ \E l \in 1..Len(s.libs) : s.libs[l] = s.parts[k])}
               [] s.lang = "go" -> {k \in 1..Len(s.parts) : s.parts[k] \in GoWords \cup {"documentation"}}
  IN {Clash("reserved name in the settings", {s.place}) : k \in bad}

\* Structures of C++ and Go cannot hold themselves, unless by a pointer.
Holds(s) ==
  {<<i, j>> \in (1..Len(s.embeds)) \X (1..Len(s.embeds)) :
     \E k \in 1..Len(s.embeds[i].props) :
       s.embeds[i].props[k].emb = j /\ (s.lang = "cpp" \/ ~s.embeds[i].props[k].opt)}
RECURSIVE Closed(_)
Closed(r) ==
  LET more == r \cup {<<a[1], b[2]>> : <<a, b>> \in {<<a, b>> \in r \X r : a[2] = b[1]}} IN
  IF more = r THEN r ELSE Closed(more)
Infinite(s) ==
  IF s.lang = "py" THEN {}
  ELSE LET r == Closed(Holds(s)) IN
       {Clash("holds itself", {EmbedRef(j) : j \in {j \in 1..Len(s.embeds) : <<i, j>> \in r /\ <<j, i>> \in r}}) :
        i \in {i \in 1..Len(s.embeds) : <<i, i>> \in r}}

\* Bounds of integers and sizes of arrays are 64-bit literals in Go and C++:
\* [neg, i |-> limbs of base 10000, o].
Limit == <<922, 3372, 368, 5477, 5808>>
RECURSIVE Above(_, _)
Above(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) > Len(b)
  ELSE IF a = <<>> THEN FALSE
  ELSE IF a[1] # b[1] THEN a[1] > b[1] ELSE Above(Tail(a), Tail(b))
Fits(b) == IF b.neg THEN ~Above(b.i, Limit) ELSE Above(Limit, b.i)
Wide(s) ==
  IF s.lang = "py" THEN {}
  ELSE {Clash("beyond 64 bits", {s.bounds[k].o}) : k \in {k \in 1..Len(s.bounds) : ~Fits(s.bounds[k])}}

\* JSON names and patterns are literals: [c |-> code points, o].
Writable(lang, c) == c \notin 55296..57343 /\ (lang # "cpp" \/ c # 0)
Unwritable(s) ==
  IF s.lang = "py" THEN {}
  ELSE {Clash("no literal", {s.texts[k].o}) :
        k \in {k \in 1..Len(s.texts) : \E j \in 1..Len(s.texts[k].c) : ~Writable(s.lang, s.texts[k].c[j])}}

\* The schema must be refused if there are any; none of them may go unnamed.
Conflicts(s) == SameName(s) \cup Reservations(s) \cup Settings(s) \cup Infinite(s) \cup Wide(s) \cup Unwritable(s)
\* The schema may be refused because of these.
Doubts(s) ==
  Words0(s, Later(s.lang))
  \cup (IF s.lang = "cpp" THEN FieldTypes(s, {"tm"}) ELSE {})
  \cup {Clash("reserved name in the settings", {s.place}) : k \in {k \in 1..Len(s.parts) : s.parts[k] \in Later(s.lang)}}
=============================================================================
