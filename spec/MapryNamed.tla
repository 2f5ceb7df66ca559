------------------------------ MODULE MapryNamed ------------------------------
(* Judges recorded names: item [fn, n, got] is the result of a function for   *)
(* the name n.                                                                *)
EXTENDS MapryNames, MapryJudge

Expected(fn, n) ==
  CASE fn = "plural" -> Plural(n)
    [] fn \in {"json_plural", "lower", "py.as_attribute", "py.as_variable", "cpp.as_field", "cpp.as_variable"} -> Lower(n)
    [] fn = "camel_case" -> Camel(n)
    [] fn \in {"ucamel_case", "py.as_composite", "cpp.as_composite"} -> Ucamel(n)
    [] fn = "key" -> RegistryKey(Plural(n))

BadNamed(item) ==
  (IF item.crash # "" THEN {item.crash}
   ELSE IF item.got = Expected(item.fn, item.n) THEN {} ELSE {item.fn})
  \cup IF Sound(item.n) THEN {} ELSE {"the specification contradicts itself"}
=============================================================================
