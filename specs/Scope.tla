---- MODULE Scope ----
(* Starlark scoping: a file and every function are scopes; a name bound anywhere in a scope belongs to that scope (or,
   inside of an expression, to the comprehension or lambda that binds it), and a use refers to the innermost scope around it
   that binds the name.  Default values are evaluated outside of the function. *)
EXTENDS Flow
\* All statements of a scope with their numbers, nested functions included but not entered
RECURSIVE Own(_, _)
Own(q, n) ==
  IF q = <<>> THEN <<>> ELSE
  LET s == q[1] b == IF s.t = "def" THEN <<>> ELSE Blocks(s)
      inner == IF Len(b) = 0 THEN <<>> ELSE IF Len(b) = 1 THEN Own(b[1], n + 1) ELSE Own(b[1], n + 1) \o Own(b[2], n + 1 + CountAll(b[1]))
  IN <<[s |-> s, n |-> n]>> \o inner \o Own(Tail(q), n + Count(s))
\* A binding: the name, the statement it is in, its kind and whether it is marked as deliberate
Binding(x, n, kind, mark) == [x |-> x, n |-> n, kind |-> kind, mark |-> mark]
Under(x) == HasPrefix(x, "_")
RECURSIVE TargetSeq(_)
TargetSeq(n) == IF n.t = "id" THEN <<n.v>> ELSE IF n.t \in {"tuple", "list"} THEN Flat([i \in 1..Len(n.k) |-> TargetSeq(n.k[i])]) ELSE <<>>
Binds(o) ==
  LET s == o.s IN
  CASE s.t = "def" -> <<Binding(s.v, o.n, "def", HasC(s, "@unused"))>>
    [] s.t = "asg" -> LET t == TargetSeq(s.k[1]) all == \A i \in 1..Len(t) : Under(t[i])
                      IN [i \in 1..Len(t) |-> Binding(t[i], o.n, "var", HasC(s, "@unused") \/ (~all /\ Under(t[i])))]
    [] s.t = "for" -> LET t == TargetSeq(s.k[1]) IN [i \in 1..Len(t) |-> Binding(t[i], o.n, "loop", Under(t[i]))]
    [] OTHER -> <<>>
Params(def, n) ==
  LET ps == SelectSeq(def.k[1].k, LAMBDA p : ParamName(p) # "")
  IN [i \in 1..Len(ps) |-> LET x == ParamName(ps[i]) IN Binding(x, n, "param", x = "name" \/ Under(x) \/ HasC(ps[i], "@unused"))]
BindsAll(own) == Flat([i \in 1..Len(own) |-> Binds(own[i])])
Names(bs) == {bs[i].x : i \in 1..Len(bs)}
\* Names a scope's code refers to outside of the scope
\* an augmented assignment alone makes no use of its variable
NameUses(s) == IF s.t = "asg" THEN TargetUses(s.k[1]) \o Uses(s.k[2]) ELSE StmtUses(s)
RECURSIVE FreeDef(_, _), UsedIn(_)
UsedIn(own) == SetOf(Flat([i \in 1..Len(own) |-> NameUses(own[i].s)])) \cup UNION {IF own[i].s.t = "def" THEN FreeDef(own[i].s, own[i].n) ELSE {} : i \in 1..Len(own)}
FreeDef(def, n) == LET own == Own(def.k[3].k, n + 1) IN UsedIn(own) \ Names(Params(def, n) \o BindsAll(own))

\* The bindings of a scope that nothing refers to, the first of every name and kind (functions are told from variables)
Kinds(b) == IF b.kind = "def" THEN "def" ELSE "var"
UnusedOf(bs, used) == {b \in SetOf(bs) : b.x \notin used}
FirstOf(bs, x, kind) == bs[CHOOSE i \in 1..Len(bs) : bs[i].x = x /\ Kinds(bs[i]) = kind /\ \A j \in 1..i - 1 : ~(bs[j].x = x /\ Kinds(bs[j]) = kind)]
\* what has to be reported in a scope, and what is left open: a name with several bindings only some of which are marked
Report(bs, used, exported) ==
  LET un == UnusedOf(bs, used)
      keys == {<<b.x, Kinds(b)>> : b \in un}
      open(k) == LET m == {b.mark : b \in {c \in un : c.x = k[1]}} IN m = {TRUE, FALSE}
      marked(k) == \A b \in un : b.x = k[1] => b.mark
  IN [must |-> {[x |-> k[1], n |-> FirstOf(bs, k[1], k[2]).n, def |-> k[2] = "def"] : k \in {k \in keys : ~open(k) /\ ~marked(k) /\ ~(exported /\ ~Under(k[1]))}},
      may |-> {[x |-> k[1], n |-> FirstOf(bs, k[1], k[2]).n, def |-> k[2] = "def"] : k \in {k \in keys : open(k) /\ ~(exported /\ ~Under(k[1]))}}]
Join2(a, b) == [must |-> a.must \cup b.must, may |-> a.may \cup b.may]
RECURSIVE Join2All(_)
Join2All(q) == IF q = <<>> THEN [must |-> {}, may |-> {}] ELSE Join2(q[1], Join2All(Tail(q)))
ReportDef(d) == LET own == Own(d.def.k[3].k, d.n + 1) IN Report(Params(d.def, d.n) \o BindsAll(own), UsedIn(own), FALSE)
Exported(type) == type \in {".bzl", "default"}
UnusedVars(f) ==
  LET own == Own(f.k, 1) ds == Defs(f.k, 1)
  IN Join2(Report(BindsAll(own), UsedIn(own), Exported(f.v)), Join2All([i \in 1..Len(ds) |-> ReportDef(ds[i])]))

\* ---- loads
\* every identifier that occurs, whatever it refers to (types included)
RECURSIVE Idents(_)
Idents(n) == IF n.t = "load" THEN {} ELSE (IF n.t = "id" THEN {n.v} ELSE {}) \cup (IF n.t = "asg" /\ n.k[1].t = "id" THEN Idents(n.k[2]) ELSE UNION {Idents(n.k[i]) : i \in 1..Len(n.k)})
RECURSIVE TypesIn(_)
TypesIn(n) == (IF n.t = "typed" THEN Idents(n.k[2]) ELSE IF n.t = "def" THEN Idents(n.k[2]) ELSE {}) \cup UNION {TypesIn(n.k[i]) : i \in 1..Len(n.k)}
Bound(f) == Names(BindsAll(Own(f.k, 1)))
Refers(f) == UsedIn(Own(f.k, 1)) \cup TypesIn(f)
LoadsOf(f) == SelectSeq([i \in 1..Len(f.k) |-> [s |-> f.k[i], n |-> 1 + CountAll(SubSeq(f.k, 1, i - 1))]], LAMBDA o : o.s.t = "load")
SymKey(ld, i) == [n |-> ld.n, x |-> ld.s.k[i].v, i |-> i]
\* verdict on every loaded symbol in order: "twice", "clash", "unused", "used", "kept", "open"
Symbols(f) == Flat([j \in 1..Len(LoadsOf(f)) |-> LET ld == LoadsOf(f)[j] IN [i \in 1..Len(ld.s.k) |-> [n |-> ld.n, i |-> i, x |-> ld.s.k[i].v, from |-> ld.s.k[i].k[1].v, lab |-> ld.s.v, mark |-> HasC(ld.s, "@unused") \/ HasC(ld.s.k[i], "@unused")]]])
Verdict(f, sy, i) ==
  LET prev == {j \in 1..i - 1 : sy[j].x = sy[i].x} IN
  IF prev # {} THEN LET j == Max2(prev) IN IF sy[j].lab = sy[i].lab /\ sy[j].from = sy[i].from THEN "twice" ELSE "clash"
  ELSE IF sy[i].x \in Refers(f) THEN "used"
  ELSE IF sy[i].mark THEN "kept"
  ELSE IF sy[i].x \in Idents(f) THEN "open" ELSE "unused"
====
