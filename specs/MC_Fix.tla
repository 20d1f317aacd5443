---- MODULE MC_Fix ----
(* Bounded exploration of buildozer's fixes: files made of a few statements of every kind the fixes look at, every
   single fix and all together, on the whole file and on its rules, repeated.  Laws: a fix is idempotent, it neither adds
   nor loses rules, it keeps every name that is used bound to the same file, and it keeps what an attribute denotes. *)
EXTENDS Buildozer, Json, FiniteSets
CONSTANTS Depth, Rich
VARIABLES start, f, pre, hist
E0 == [pkg |-> "p", dir |-> "p", keep |-> FALSE, eol |-> TRUE, types |-> <<>>, vars |-> FALSE, spans |-> <<>>, path |-> ""]
NoRe == [k |-> "", a |-> "", b |-> ""]
StepOf(t, a) == [cmds |-> <<[c |-> "fix", a |-> a, re |-> NoRe, t |-> <<"", "", "">>]>>, targets |-> <<t>>, spell |-> <<0>>, keep |-> FALSE, eol |-> TRUE, types |-> <<>>]
Sum(a, b) == N("bin", "+", <<a, b>>)
Glob(q) == Call("glob", <<Strs(q)>>)
Load(m, q) == N("load", m, [i \in 1..Len(q) |-> N("sym", q[i], <<Id(q[i])>>)])
Rule(k, q) == Call(k, <<Asg("name", S("r"))>> \o q)
Package(q) == Call("package", q)
Tops == {<<>>, <<Load("//x:a.bzl", <<"u", "s">>)>>, <<Load("//x:a.bzl", <<"s">>), Load("//y:b.bzl", <<"s", "t">>), Load("//x:a.bzl", <<"t", "s">>)>>, <<Load("//x:a.bzl", <<"u">>), Asg("X", Strs(<<"s">>))>>}
         \cup (IF Rich THEN {<<S("Doc."), Load("//x:a.bzl", <<"s">>)>>, <<Asg("s", N("num", "1", <<>>)), Load("//x:a.bzl", <<"s">>)>>} ELSE {})
Pkgs == {<<>>, <<Package(<<Asg("default_visibility", Strs(<<"//visibility:public">>)), Asg("default_testonly", N("num", "1", <<>>))>>)>>, <<Package(<<Asg("default_testonly", Id("X"))>>), Call("licenses", <<Strs(<<"notice">>)>>)>>}
Rules == {Rule("cc_library", <<Asg("srcs", Sum(Strs(<<"b", "//p:a">>), Strs(<<"//x:x">>))), Asg("visibility", Strs(<<"//visibility:private">>))>>),
          Rule("s", <<Asg("srcs", Sum(Sum(Strs(<<"a">>), Strs(<<"b">>)), Glob(<<"z", "c">>))), Asg("visibility", Strs(<<"//visibility:public">>)), Asg("testonly", N("num", "0", <<>>))>>),
          Rule("genrule", <<Asg("srcs", Strs(<<"a", "//x:x">>)), Asg("deps", Strs(<<":b">>)), Asg("cmd", S("cp a $(location a)a //x:x; :b b"))>>),
          Rule("t_test", <<Asg("copts", Strs(<<"-a -b", "-c '-d e'">>)), Asg("testonly", N("num", "1", <<>>))>>),
          Rule("t", <<Asg("foo", Call("varref", <<S("V")>>)), Asg("deps", Sum(Id("X"), Sum(Strs(<<":a">>), Strs(<<"//q:p">>))))>>)}
         \cup (IF Rich THEN {Rule("genrule", <<Asg("deps", Strs(<<":b">>)), Asg("tools", Id("X")), Asg("cmd", Sum(S("b //x"), S("$(execpath :b)b")))>>), Call("exports_files", <<Strs(<<"z", "a">>)>>),
                             N("asg", "=", <<Id("v"), Rule("test_suite", <<Asg("testonly", N("num", "1", <<>>)), Asg("linkopts", Sum(Strs(<<"a b">>), Id("X")))>>)>>)} ELSE {})
Tails == {<<>>, <<CallN(N("dot", "append", <<Id("X")>>), <<S("q")>>)>>} \cup (IF Rich THEN {<<CallN(N("dot", "extend", <<Id("X")>>), <<Id("t")>>), Call("licenses", <<Strs(<<"old">>)>>)>>} ELSE {})
Files == {File("BUILD", a \o (IF late THEN <<x>> \o p \o z ELSE p \o <<x>> \o z)) : a \in Tops, p \in Pkgs, x \in Rules, z \in Tails, late \in BOOLEAN}
Names == {"sortGlob", "splitOptions", "shortenLabels", "removeVisibility", "removeTestOnly", "genruleRenameDepsTools", "genruleFixHeuristicLabels", "sortExportsFiles", "varref", "mergeLiteralLists", "movePackageToTop", "usePlusEqual", "unusedLoads", "moveLicenses"}
Steps == {StepOf("__pkg__", <<>>), StepOf("all", <<>>)} \cup {StepOf("__pkg__", <<n>>) : n \in Names}
Init == start \in Files /\ f = start /\ pre = start /\ hist = <<>>
Next == Len(hist) < Depth /\ \E s \in Steps : f' = Run(f, s.targets, s.cmds, E0).f /\ hist' = Append(hist, s) /\ pre' = f /\ UNCHANGED start
Last == hist[Len(hist)]
Idempotent == hist # <<>> => Canon(Run(f, Last.targets, Last.cmds, E0).f) = Canon(f)
RECURSIVE Called(_)
Called(n) == (IF n.t = "call" /\ n.k[1].t = "id" /\ AttrNames(n) # <<>> /\ HasAttr(n, "name") THEN <<<<Kind(n), Attr(n, "name").v>>>> ELSE <<>>) \o Flat([i \in 1..Len(n.k) |-> Called(n.k[i])])
SameRules == Called(f) = Called(pre)
\* the files a name is loaded from (a name loaded from two files is an error for Bazel)
Froms(g, x) == {g.k[i].v : i \in {i \in 1..Len(g.k) : IsLoad(g.k[i]) /\ \E j \in 1..Len(g.k[i].k) : g.k[i].k[j].v = x}}
Bound == \A x \in {"s", "t", "u"} :
  /\ Froms(f, x) \subseteq Froms(pre, x)
  /\ x \in UNION {UsedIn(pre.k[i]) : i \in 1..Len(pre.k)} => Froms(f, x) = Froms(pre, x)
\* the labels of a list, whatever their spelling and order
Labels(g, a) == [i \in 1..Len(g.k) |-> LET n == IF IsCall(g.k[i]) THEN Attr(g.k[i], a) ELSE None IN IF n = None THEN {} ELSE LET q == Elems(Lists(n)) IN {Shorten(q[j].v, "p") : j \in {j \in 1..Len(q) : IsStr(q[j])}}]
Only(g) == WithK(g, SelectSeq(g.k, LAMBDA s : IsCall(s) /\ HasAttr(s, "name") /\ Kind(s) # "genrule"))
SameLabels == \A a \in {"srcs", "deps"} : Labels(Only(f), a) = Labels(Only(pre), a)
OnePackage == \A i \in 1..Len(f.k) : ~EmptyPackage(f.k[i])
Emit == Len(hist) = Depth => PrintT("CASE " \o ToJson([tree |-> start, lay |-> 0, pkg |-> "p", dir |-> "p", fname |-> "BUILD", steps |-> hist]))
====
