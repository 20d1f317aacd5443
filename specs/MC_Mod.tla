---- MODULE MC_Mod ----
(* Bounded exploration of use_repo_add and use_repo_remove: every file made of a few usages of extensions, and
   every history of up to Depth commands.  The laws speak of the sets of imports of every usage. *)
EXTENDS Buildozer, Json, FiniteSets
CONSTANTS Depth, Rich
VARIABLES start, f, pre, hist, res
E0 == [pkg |-> "p", dir |-> "p", keep |-> FALSE, eol |-> FALSE, types |-> <<>>, vars |-> FALSE, spans |-> <<>>, path |-> ""]
NoRe == [k |-> "", a |-> "", b |-> ""]
StepOf(t, c, a) == [cmds |-> <<[c |-> c, a |-> a, re |-> NoRe, t |-> <<"", "", "">>]>>, targets |-> <<t>>, spell |-> <<0>>, keep |-> FALSE, eol |-> FALSE, types |-> <<>>]
Module == Call("module", <<Asg("name", S("m"))>>)
True == Id("True")
Ext(p, lab, name, more) == Asg(p, Call("use_extension", <<S(lab), S(name)>> \o more))
Dev == <<Asg("dev_dependency", True)>>
Iso == <<Asg("isolate", True)>>
Tag(p) == CallN(N("dot", "tag", <<Id(p)>>), <<Asg("name", S("t"))>>)
Use(p, rs) == Call("use_repo", <<Id(p)>> \o rs)
As(k, r) == Asg(k, S(r))
First == {<<Ext("a", "//x:e.bzl", "e", <<>>)>>, <<Ext("a", "@m//x:e.bzl", "e", <<>>), Tag("a")>>, <<Ext("a", "//x:e.bzl", "e", <<>>), Use("a", <<S("r1")>>), Tag("a")>>}
Second == {<<>>, <<Ext("b", "@//x:e.bzl", "e", <<>>)>>, <<Ext("b", "//x:e.bzl", "e", <<>>), Use("b", <<S("r2"), As("k", "r1")>>)>>,
           <<Ext("b", "//x:e.bzl", "e", Dev), Use("b", <<S("r1")>>)>>, <<Ext("b", "//x:e.bzl", "e", Iso), Use("b", <<S("r2")>>)>>, <<Ext("b", "//x:e.bzl", "f", <<>>), Tag("b")>>, <<Ext("b", "//x:e.bzl", "e", <<Asg("dev_dependency", Id("False"))>>), Tag("a")>>}
Third == IF Rich THEN {<<>>, <<Ext("c", "//x:e.bzl", "e", Dev)>>, <<Use("a", <<S("r3"), S("r2")>>)>>, <<Tag("b"), Use("x", <<S("r1")>>)>>} ELSE {<<>>, <<Use("a", <<S("r3"), S("r2")>>)>>}
Files == {File("MODULE.bazel", <<Module>> \o x \o y \o z) : x \in First, y \in Second, z \in Third}
Reqs == {<<"a">>, <<"b">>, <<"//x:e.bzl", "e">>, <<"dev", "@m//x:e.bzl", "e">>} \cup (IF Rich THEN {<<"@//x:e.bzl", "e">>, <<"//x:e.bzl", "f">>, <<"dev">>} ELSE {})
Steps == {StepOf(t, c, q \o r) : t \in {"all"}, c \in {"use_repo_add", "use_repo_remove"}, q \in Reqs, r \in {<<"r1">>, <<"r2", "r4">>, <<"r3", "r3">>}}
Init == start \in Files /\ f = start /\ pre = start /\ hist = <<>> /\ res = [f |-> start, ch |-> FALSE, errs |-> 0, out |-> <<>>, vague |-> FALSE]
Next == Len(hist) < Depth /\ \E s \in Steps : LET r == Run(f, s.targets, s.cmds, E0) IN hist' = Append(hist, s) /\ res' = r /\ f' = r.f /\ pre' = f /\ UNCHANGED start
Last == hist[Len(hist)]
Cmd == Last.cmds[1]
P == Request(pre, Cmd.a).P
Rs == SetOf(Request(pre, Cmd.a).repos)
\* every usage in the file, as a set of proxies
Usages(g) == {Siblings(g, g.k[i].k[1].v) : i \in {i \in 1..Len(g.k) : UseExt(g.k[i])}}
Bag(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Law == hist # <<>> =>
  /\ res.errs > 0 <=> P = {}
  /\ Usages(f) = Usages(pre)
  /\ res.errs = 0 => \A U \in Usages(pre) : \A r \in {"r1", "r2", "r3", "r4"} :
       IF U # P \/ r \notin Rs THEN Bag(Imports(f, U), r) = Bag(Imports(pre, U), r)
       ELSE IF Cmd.c = "use_repo_remove" THEN Bag(Imports(f, U), r) = 0
       ELSE Bag(Imports(f, U), r) = Max2({1, Bag(Imports(pre, U), r)})
  /\ \A i \in 1..Len(f.k) : ~EmptyUseRepo(f.k[i]) \/ res.errs > 0
  /\ LET keep(g) == SelectSeq(g.k, LAMBDA s : ~IsCallOf(s, "use_repo")) IN keep(Canon(pre)) = keep(Canon(f))
  \* a new statement stands behind the extension and its tags
  /\ \A i \in 1..Len(f.k) : (IsCallOf(f.k[i], "use_repo") /\ f.k[i].k[2].v \in P) => \E j \in 1..i : UseExt(f.k[j]) /\ f.k[j].k[1].v = f.k[i].k[2].v
FailLaw == (hist # <<>> /\ res.errs > 0) => f = pre
Idempotent == (hist # <<>> /\ res.errs = 0) => Canon(Run(f, Last.targets, Last.cmds, E0).f) = Canon(f)
Emit == Len(hist) = Depth => PrintT("CASE " \o ToJson([tree |-> start, lay |-> 0, pkg |-> "p", dir |-> "p", fname |-> "MODULE.bazel", steps |-> hist]))
====
