---- MODULE T_Macro ----
(* Conformance of the lints that look into several files. *)
EXTENDS Macro, TraceCommon
VARIABLES h, done
P(o) == [i \in 1..Len(o.files) |-> [pkg |-> o.files[i].pkg, name |-> o.files[i].name, ok |-> o.files[i].ok, tree |-> o.files[i].tree]]
Names(q) == [i \in 1..Len(q) |-> q[i].v]
Got(q) == [i \in 1..Len(q) |-> q[i].name]
Occ(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
\* the reason given is a call in that function that leads to a rule
Reasons(p, o) == \A i \in 1..Len(o.macros) : LET m == o.macros[i] IN
  /\ \E j \in 1..Len(o.calls) : o.calls[j].def = m.name /\ o.calls[j].name = m.via /\ o.calls[j].line = m.line
  /\ LET s == SymbolOf(p[1], m.via) IN IsMacro(p, s)
What(r) ==
  IF r.st # "ok" THEN r.st ELSE LET o == r.obs p == P(o) IN
  IF Got(o.macros) # Names(Unnamed(p, 1)) THEN "unnamed-macro"
  ELSE IF ~Reasons(p, o) THEN "the call that makes it a macro"
  ELSE IF o.alone # Names(Unnamed(<<p[1]>>, 1)) THEN "unnamed-macro without other files"
  ELSE IF ~o.same THEN "findings change from run to run"
  ELSE LET d == Deprecated(p, 1) IN
  IF {<<o.deprecated[i].name, o.deprecated[i].path>> : i \in 1..Len(o.deprecated)} # {<<x[2], x[3]>> : x \in d} \/ Len(o.deprecated) # Cardinality(d) THEN "deprecated-function"
  ELSE ""
Want(r) == IF r.st # "ok" THEN "" ELSE LET p == P(r.obs) IN [macros |-> Names(Unnamed(p, 1)), alone |-> Names(Unnamed(<<p[1]>>, 1)), deprecated |-> Deprecated(p, 1)]
Init == h \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ (LET w == What(Recs[h]) IN w = "" \/ BadWant(h, w, Want(Recs[h])))
====
