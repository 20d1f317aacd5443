---- MODULE Macro ----
(* Macros: functions that can reach a rule through calls, aliases and loads, in any number of files.
   A project is a sequence of files [pkg, name, ok, tree]; a symbol is <<pkg, file, name>>, native.x is <<"", "native", x>>. *)
EXTENDS Tree, Labels, FiniteSets
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
\* the file a symbol is in, 0 if there is none to be read
FileOf(P, pkg, name) == LET I == {i \in 1..Len(P) : P[i].pkg = pkg /\ P[i].name = name /\ P[i].ok} IN IF I = {} THEN 0 ELSE MaxOf(I)
NotRules == {"glob", "existing_rule", "existing_rules", "package_name", "repository_name", "exports_files"}
Native(x) == <<"", "native", x>>
\* names loaded into a file with the symbols they stand for; files of other repositories are not looked at
Loads(f) == UNION {LET s == f.tree.k[i] l == ParseRel(s.v, f.pkg) IN
                   IF s.t # "load" \/ l.repo # "" THEN {} ELSE {<<s.k[j].v, <<l.pkg, l.target, s.k[j].k[1].v>>>> : j \in 1..Len(s.k)} : i \in 1..Len(f.tree.k)}
Resolve(f, x) == LET q == {p \in Loads(f) : p[1] = x} IN IF q = {} THEN <<f.pkg, f.name, x>> ELSE (CHOOSE p \in q : TRUE)[2]
\* the functions called in a piece of code, by the name used there
RECURSIVE Callees(_)
Callees(n) ==
  (IF n.t # "call" THEN {} ELSE IF n.k[1].t = "id" THEN {n.k[1].v} ELSE IF n.k[1].t = "dot" /\ n.k[1].k[1].t = "id" /\ n.k[1].k[1].v = "native" THEN {"native." \o n.k[1].v} ELSE {})
  \cup UNION {Callees(n.k[i]) : i \in 1..Len(n.k)}
SymbolOf(f, x) == IF HasPrefix(x, "native.") THEN Native(From(x, 8)) ELSE Resolve(f, x)
\* what the definition of a symbol refers to
Stmt(f, x) == LET I == {i \in 1..Len(f.tree.k) : LET s == f.tree.k[i] IN (s.t = "def" /\ s.v = x) \/ (s.t = "asg" /\ s.v = "=" /\ s.k[1].t = "id" /\ s.k[1].v = x /\ (s.k[2].t = "id" \/ IsCallOf(s.k[2], "rule")))}
              IN IF I = {} THEN None ELSE f.tree.k[MaxOf(I)]
IsRule(P, s) == IF s[2] = "native" THEN s[3] \notin NotRules ELSE LET i == FileOf(P, s[1], s[2]) IN i > 0 /\ LET d == Stmt(P[i], s[3]) IN d.t = "asg" /\ d.k[2].t = "call"
Refers(P, s) ==
  IF s[2] = "native" THEN {} ELSE LET i == FileOf(P, s[1], s[2]) IN IF i = 0 THEN {} ELSE
  LET f == P[i] d == Stmt(f, s[3])
  IN CASE d.t = "def" -> {SymbolOf(f, x) : x \in Callees(d)} [] d.t = "asg" -> IF d.k[2].t = "id" THEN {Resolve(f, d.k[2].v)} ELSE {} [] OTHER -> {}
RECURSIVE Reach(_, _, _)
Reach(P, done, todo) == IF todo = {} THEN done ELSE LET d == done \cup todo IN Reach(P, d, UNION {Refers(P, s) : s \in todo} \ d)
IsMacro(P, s) == \E r \in Reach(P, {}, {s}) : IsRule(P, r)
ParamOf(p) ==
  LET q == IF p.t = "asg" THEN p.k[1] ELSE p
      u == IF q.t = "un" THEN (IF Len(q.k) = 0 THEN Id("") ELSE q.k[1]) ELSE q
  IN (IF u.t = "typed" THEN u.k[1] ELSE u).v
TakesName(d) == \E i \in 1..Len(d.k[1].k) : LET p == d.k[1].k[i] IN (p.t = "un" /\ p.v = "**") \/ (~(p.t = "un" /\ p.v = "*") /\ ParamOf(p) = "name")
\* the functions of a file that are reported, in their order
Unnamed(P, m) == LET f == P[m] IN SelectSeq([i \in 1..Len(f.tree.k) |-> f.tree.k[i]], LAMBDA s : s.t = "def" /\ ~HasPrefix(s.v, "_") /\ ~TakesName(s) /\ IsMacro(P, <<f.pkg, f.name, s.v>>))
\* loaded functions whose docstring has a section about their deprecation
DocOf(d) == LET q == SelectSeq(d.k[3].k, LAMBDA s : s.t # "comment") IN IF q = <<>> \/ q[1].t # "str" THEN "" ELSE q[1].v
RECURSIVE TrimR(_)
TrimR(s) == IF HasSuffix(s, " ") THEN TrimR(Upto(s, Len(s) - 1)) ELSE s
IsDeprecated(d) == LET q == Split(DocOf(d), "\n") IN \E i \in 2..Len(q) : TrimR(q[i]) = "    Deprecated:"
PathOf(f) == "//" \o (IF f.pkg = "" THEN "" ELSE f.pkg \o "/") \o f.name
Deprecated(P, m) == UNION {LET s == P[m].tree.k[i] l == ParseRel(s.v, P[m].pkg) g == FileOf(P, l.pkg, l.target) IN
    IF s.t # "load" \/ l.repo # "" \/ g = 0 THEN {} ELSE {<<i, s.k[j].k[1].v, PathOf(P[g])>> : j \in {j \in 1..Len(s.k) : LET d == Stmt(P[g], s.k[j].k[1].v) IN d.t = "def" /\ IsDeprecated(d)}} : i \in 1..Len(P[m].tree.k)}
====
