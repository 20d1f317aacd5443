---- MODULE Unused ----
(* Which direct dependencies of Java rules the compiler did not use, and what is proposed about them. *)
EXTENDS Tree, Labels, FiniteSets
RECURSIVE Lists(_)
\* the list literals of a sum, in order
Lists(e) == IF IsList(e) THEN e.k ELSE IF IsPlus(e) THEN Lists(e.k[1]) \o Lists(e.k[2]) ELSE <<>>
Runtime(s) == \E i \in 1..Len(s.c) : Upto(s.c[i], 1) = "S" /\ Contains(Lower(s.c[i]), "runtime")
\* the first element of a sequence that meets a condition, as a sequence
First(q, P(_)) == LET K == {i \in 1..Len(q) : P(q[i])} IN IF K = {} THEN <<>> ELSE <<q[CHOOSE i \in K : \A j \in K : i <= j]>>
AttrOf(call, a) == LET m == First(Args(call), LAMBDA x : ArgName(x) = a) IN IF m = <<>> THEN None ELSE m[1].k[2]
RuleNamed(f, n) == First(f.k, LAMBDA s : IsCall(s) /\ AttrOf(s, "name").t = "str" /\ AttrOf(s, "name").v = n)
\* the label in the manifest of a jar, "" if there is none
JarLabel(in, p) ==
  LET j == First(in.jars, LAMBDA x : x.p = p)
  IN IF j = <<>> \/ j[1].st # "ok" THEN "" ELSE j[1].l
Canonical(l) == LET x == ParseAbs(l) IN x
RuleOf(in, label) == First(in.rules, LAMBDA r : r.label = label)
\* the direct dependencies, and those of them that were used explicitly; unreadable outputs say nothing
Direct(in, r) == {Canonical(JarLabel(in, r.jars[i])) : i \in {i \in 1..Len(r.jars) : JarLabel(in, r.jars[i]) # ""}}
UsedBy(in, r) == {Canonical(JarLabel(in, r.used[i].p)) : i \in {i \in 1..Len(r.used) : r.used[i].k = "EXPLICIT" /\ JarLabel(in, r.used[i].p) # ""
                                                                  /\ \E j \in 1..Len(r.jars) : r.jars[j] = r.used[i].p}}
Known(r) == r.params = "ok" /\ r.jdeps = "ok"
NotUsed(in, label) == LET m == RuleOf(in, label) IN IF m = <<>> \/ ~Known(m[1]) THEN {} ELSE Direct(in, m[1]) \ UsedBy(in, m[1])
\* what a label in a package of a repository means
Means(s, repo, pkg) == IF HasPrefix(s, "@") THEN ParseAbs(s) ELSE [ParseRel(s, pkg) EXCEPT !.repo = repo]
FileOf(in, l) == First(in.files, LAMBDA f : f.repo = l.repo /\ f.pkg = l.pkg)
DepsOf(in, label) ==
  LET l == ParseAbs(label) f == FileOf(in, l)
      r == IF f = <<>> \/ f[1].bad THEN <<>> ELSE RuleNamed(f[1].tree, l.target)
  IN IF r = <<>> THEN <<>> ELSE Lists(AttrOf(r[1], "deps"))
Lines1(in, label, d) ==
  IF Runtime(d) THEN <<"buildozer 'move deps runtime_deps " \o d.v \o "' " \o label>>
  ELSE <<"buildozer \"add deps $(" \o in.tool \o " query 'labels(exports, " \o d.v \o ")' | tr '\\n' ' ')\" " \o label,
         "buildozer 'remove deps " \o d.v \o "' " \o label>>
Proposed(in, label) ==
  LET l == ParseAbs(label) n == NotUsed(in, label) IN SelectSeq(DepsOf(in, label), LAMBDA d : IsStr(d) /\ Means(d.v, l.repo, l.pkg) \in n)
LinesOf(in, label) == LET p == Proposed(in, label) IN Flat([i \in 1..Len(p) |-> Lines1(in, label, p[i])])
Output(in) == Flat([i \in 1..Len(in.query) |-> LinesOf(in, in.query[i])])
\* the targets that are asked for, in one query
Asked(in) == IF in.pats = <<>> THEN <<"//...">> ELSE in.pats
====
