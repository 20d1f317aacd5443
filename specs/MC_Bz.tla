---- MODULE MC_Bz ----
(* Bounded exploration of the command semantics: every command of a focus on every small file of that
   focus, and (thorough) every sequence of two of them.  The laws say what a command is for in terms that do
   not mention how it is carried out: the set of labels an attribute stands for under every configuration,
   the map a dictionary stands for, the table of symbols a file loads, the list of its rules.  Every
   history explored is emitted as a case for the real program. *)
EXTENDS Buildozer, Json, FiniteSets
CONSTANTS Focus, Depth, Rich
VARIABLES start, f, pre, hist, res
vars == <<start, f, pre, hist, res>>

E0 == [pkg |-> "p", dir |-> "p", keep |-> FALSE, eol |-> FALSE, types |-> <<>>, vars |-> FALSE, spans |-> <<>>, path |-> ""]
NoRe == [k |-> "", a |-> "", b |-> ""]
C(c, a) == [c |-> c, a |-> a, re |-> NoRe, t |-> <<"", "", "">>]
CR(c, a, re, t) == [c |-> c, a |-> a, re |-> re, t |-> t]
StepOf(t, c) == [cmds |-> <<c>>, targets |-> <<t>>, spell |-> <<0>>, keep |-> FALSE, eol |-> FALSE, types |-> <<>>]

(* ---- the files and the steps of each focus ---- *)
Rule(kind, name, attrs) == Call(kind, (IF name = "" THEN <<>> ELSE <<Asg("name", S(name))>>) \o attrs)
BF(stmts) == File("BUILD", stmts)
Def == "//conditions:default"
Sel(a, b) == Select(<<Kv(S(":k0"), a), Kv(S(Def), b)>>)
Part(l) == Select(<<Kv(S(":k0"), l)>>)
ListExprs ==
  {Strs(<<"a">>), Strs(<<":a", "//x:y">>), Strs(<<"//p:a", "b">>), Plus(Strs(<<"b">>), Sel(Strs(<<":a">>), Strs(<<"a", "//x:y">>))),
   Sel(Strs(<<"a">>), Strs(<<"//p:a">>)), Sel(Strs(<<"a">>), Strs(<<>>)), Plus(Part(Strs(<<"b", "a">>)), Sel(Strs(<<"a">>), Strs(<<"b">>))),
   Plus(Plus(Strs(<<"a">>), Strs(<<"b">>)), Sel(Strs(<<"//x:y">>), Id("X"))), Plus(Id("X"), Strs(<<"a", "a">>))}
  \cup (IF Rich THEN {Strs(<<>>), L(<<S("a"), Id("X")>>), Plus(Sel(Strs(<<"a">>), Strs(<<"a">>)), Sel(Strs(<<"b">>), Strs(<<":b", "a">>))),
                      Plus(Strs(<<>>), Sel(Strs(<<"a">>), Id("None"))), Plus(Part(Strs(<<"a">>)), Strs(<<"//p:a">>))} ELSE {})
Vals == {"a", ":a", "//p:a", "b", "//x:y"}
Other == Rule("cc_library", "b", <<Asg("deps", Strs(<<"a", ":b">>))>>)
ListFiles == {BF(<<Rule("cc_library", "r", <<Asg("deps", e)>>), Other>>) : e \in ListExprs}
             \cup {BF(<<Rule("cc_library", "r", <<Asg("deps", e), Asg("data", Strs(<<"a">>))>>)>>) : e \in ListExprs} \cup {BF(<<Rule("cc_library", "r", <<>>)>>)}
ListSteps == {StepOf("r", c) : c \in
  {C("add", <<"deps", v>>) : v \in Vals} \cup {C("add", <<"deps", "b", "c">>), C("add", <<"args", "z", "a">>)} \cup {C("remove", <<"deps", v>>) : v \in Vals} \cup {C("remove", <<"*", "a">>), C("remove", <<"deps", "a", "b", "//x:y">>)}
  \cup {C("move", <<"deps", "data", v>>) : v \in Vals} \cup {C("move", <<"deps", "data", "a", "b">>), C("move", <<"deps", "data", "*">>)}
  \cup {C("replace", <<"deps", v, w>>) : v \in {"a", "//p:b"}, w \in {"z", "//x:y"}} \cup {C("replace", <<"*", "a", "b">>)}
  \cup {CR("substitute", <<"deps">>, [k |-> "cap", a |-> "//", b |-> ""], <<"//n/", "", "">>), CR("substitute", <<"*">>, [k |-> "suf", a |-> "a", b |-> ""], <<"z", "", "">>)}}

DictExprs == {Dict(<<>>), Dict(<<Kv(S("k1"), S("v1"))>>), Dict(<<Kv(S("k1"), S("v1")), Kv(S("k2"), Strs(<<"b">>))>>), Dict(<<Kv(Id("K"), S("v")), Kv(S("k2"), S("v1"))>>)}
ScalarFiles == {BF(<<Rule("genrule", "r", <<Asg("cmd", v)>>), Rule("genrule", "b", <<Asg("cmd", S("w")), Asg("size", S("large"))>>)>>) : v \in {S("x"), S(":a"), Id("CONST"), S("//p:a")}}
               \cup {BF(<<Rule("genrule", "r", <<Asg("env", d)>>), Rule("genrule", "b", <<Asg("env", S("w"))>>)>>) : d \in DictExprs}
ScalarSteps == {StepOf("r", c) : c \in
  {C(c, a) : c \in {"set", "set_if_absent"}, a \in {<<"cmd", "y">>, <<"cmd", "//p:a">>, <<"size", "small">>, <<"foo", "3">>, <<"foo", "K.x">>, <<"deps", "a", "//x:y">>, <<"env", "X">>}}
  \cup {C("set", <<"kind", k>>) : k \in {"java_library", "native.genrule"}}
  \cup {C("rename", a) : a \in {<<"cmd", "tool">>, <<"tool", "cmd">>, <<"cmd", "cmd">>}} \cup {C("remove", <<a>>) : a \in {"cmd", "env", "*"}}
  \cup {C("remove_if_equal", <<"cmd", v>>) : v \in {"x", "a", ":a", "CONST", "//p:a"}}
  \cup {C(c, <<a, "b">>) : c \in {"copy", "copy_no_overwrite"}, a \in {"cmd", "size", "foo"}}
  \cup {C(c, <<"env", kv>>) : c \in {"dict_add", "dict_set"}, kv \in {"k1:w", "k3:w:x", "k2://p:a"}} \cup {C("dict_set", <<"env", "k1:w", "k1:u">>)}
  \cup {C("dict_remove", <<"env", k>>) : k \in {"k1", "k3", "K"}} \cup {C("dict_remove", <<"env", "k1", "k2">>)}
  \cup {C("dict_replace_if_equal", <<"env", k, v, "w">>) : k \in {"k1", "k2", "k3"}, v \in {"v1", "v2"}}
  \cup {C("dict_list_add", <<"env", k, "c", "a">>) : k \in {"k2", "k3"}} \cup {C("set_select", <<a, ":k0", "x", Def, "y">>) : a \in {"cmd", "deps"}}}

LoadOf(m, ss) == N("load", m, [i \in 1..Len(ss) |-> SymOf(ss[i])])
LoadSeqs == {<<>>, <<LoadOf("//x:a.bzl", <<"s1">>)>>, <<LoadOf("//x:a.bzl", <<"s1", "t=s2">>), LoadOf("//x:b.bzl", <<"s3">>)>>, <<LoadOf("//x:b.bzl", <<"s2", "s1">>), LoadOf("//x:a.bzl", <<"s3">>)>>}
RuleSeqs == {<<>>, <<Rule("cc_library", "r", <<>>)>>, <<Call("package", <<Asg("x", Id("y"))>>), Rule("cc_library", "r", <<>>), Rule("genrule", "b", <<>>), Rule("cc_library", "r2", <<>>)>>,
             <<S("Doc."), Rule("genrule", "b", <<>>), Asg("X", Strs(<<"a">>)), Rule("cc_library", "", <<>>)>>}
FileFiles == {BF((IF r # <<>> /\ IsStr(r[1]) THEN <<r[1]>> \o l \o Tail(r) ELSE l \o r)) : l \in LoadSeqs, r \in RuleSeqs}
FileSteps == {StepOf("__pkg__", c) : c \in
   {C("new", <<k, n>>) : k \in {"cc_library", "foo"}, n \in {"new", "r", "p"}} \cup {C("new", <<"foo", "new", w, r>>) : w \in {"before", "after"}, r \in {"r", "b", "__pkg__", "zz"}}
   \cup {C("new_load", <<m, s>>) : m \in {"//x:a.bzl", "//x:c.bzl"}, s \in {"s1", "s4", "t=s4"}} \cup {C("new_load", <<"//x:a.bzl", "s1", "s4", "s5">>)}
   \cup {C("replace_load", <<m, s>>) : m \in {"//x:a.bzl", "//x:c.bzl"}, s \in {"s1", "s3"}} \cup {C("replace_load", <<"//x:c.bzl", "s1", "s2", "s3">>)}
   \cup {CR("substitute_load", <<>>, [k |-> "pre", a |-> "//x", b |-> ""], <<"@r//x", "", "">>), C("format", <<>>)}}
  \cup {StepOf(t, C("delete", <<>>)) : t \in {"r", "b", "all", "%cc_library", "__pkg__", "zz"}}

TargetFiles == {BF(q) : q \in {
   <<Rule("cc_library", "r", <<>>), Rule("genrule", "all", <<>>), Rule("cc_library", "", <<>>)>>,
   <<Call("package", <<Asg("x", Id("y"))>>), Rule("cc_library", "r", <<>>), Rule("genrule", "p", <<>>), Rule("cc_library", "", <<>>)>>,
   <<Call("exports_files", <<Strs(<<"e", "r">>)>>), N("comp", "[", <<Rule("cc_library", "c", <<>>), N("forc", "", <<Id("i"), L(<<>>)>>)>>), Rule("my_rule", "r", <<>>)>>,
   <<Asg("v", Rule("genrule", "n", <<>>)), CallN(N("dot", "binary", <<Id("native")>>), <<Asg("name", S("d"))>>)>>}}
TargetSteps == {[StepOf(t, C("set", <<"size", "small">>)) EXCEPT !.types = ty] : t \in {"r", "all", "*", "%cc_library", "%genrule", "%native.binary", "p", "c", "n", "d", "e", "__pkg__", "zz", "native"}, ty \in {<<>>, <<"cc_library">>, <<"genrule", "package">>}}

Cm(n, cs) == [n EXCEPT !.c = cs]
CommentFiles == {BF(<<Cm(Rule("cc_library", "r", <<Cm(Asg("size", S("small")), ac), Asg("deps", L(<<Cm(S("a"), vc), S("b")>>))>>), rc), Cm(Other, <<"B# other.">>)>>) :
   ac \in {<<>>, <<"B# attr.">>, <<"S# attr.">>}, vc \in {<<>>, <<"B# val.">>, <<"S# val.">>}, rc \in {<<>>, <<"B# r1.", "B# r2.">>}}
CommentSteps == {[StepOf("r", c) EXCEPT !.eol = b] : b \in BOOLEAN, c \in
   {C("comment", <<x>>) : x \in {"new.", "one.\\ntwo."}} \cup {C("comment", <<"size", "new.">>), C("comment", <<"deps", "a", "new.">>), C("comment", <<"deps", "//p:b", "new\\nline.">>), C("comment", <<"deps", "zz", "new.">>), C("comment", <<"zz", "new.">>)}
   \cup {C("remove_comment", a) : a \in {<<>>, <<"size">>, <<"deps">>, <<"deps", "a">>, <<"deps", "b">>, <<"zz">>}}}
PrintSteps == {StepOf("r", C("print", q)) : q \in {<<>>, <<"label">>, <<"kind", "deps">>, <<"rule">>, <<"size", "name">>, <<"zz">>, <<"attrs">>, <<"deps">>}}
   \cup {StepOf("*", C("print", <<"name", "label">>)), StepOf("r", C("print_comment", <<>>)), StepOf("r", C("print_comment", <<"size">>)), StepOf("r", C("print_comment", <<"deps", "a">>)), StepOf("r", C("print_comment", <<"deps">>)), StepOf("r", C("print_comment", <<"zz">>))}

Files == CASE Focus = "list" -> ListFiles [] Focus = "scalar" -> ScalarFiles [] Focus = "file" -> FileFiles [] Focus = "target" -> TargetFiles
           [] Focus = "comment" -> CommentFiles [] Focus = "print" -> CommentFiles
           [] Focus = "frame" -> CommentFiles
Steps == CASE Focus = "list" -> ListSteps [] Focus = "scalar" -> ScalarSteps [] Focus = "file" -> FileSteps [] Focus = "target" -> TargetSteps
           [] Focus = "comment" -> CommentSteps [] Focus = "print" -> PrintSteps \cup {s \in CommentSteps : Len(hist) = 0}
           [] Focus = "frame" -> {StepOf("r", c) : c \in {C("add", <<"deps", "z">>), C("add", <<"foo", "z">>), C("remove", <<"deps", "a">>), C("remove", <<"size">>), C("set", <<"size", "large">>), C("delete", <<>>),
                                  C("rename", <<"size", "foo">>), C("move", <<"deps", "data", "a">>), C("replace", <<"deps", "a", "z">>), C("set", <<"kind", "foo">>)}} \cup FileSteps

Init == start \in Files /\ f = start /\ pre = start /\ hist = <<>> /\ res = [f |-> start, ch |-> FALSE, errs |-> 0, out |-> <<>>, vague |-> FALSE]
Next == Len(hist) < Depth /\ \E s \in Steps :
          LET r == Run(f, s.targets, s.cmds, [E0 EXCEPT !.eol = s.eol, !.types = s.types])
          IN hist' = Append(hist, s) /\ res' = r /\ f' = r.f /\ pre' = f /\ UNCHANGED start

(* ---- laws ---- *)
Last == hist[Len(hist)]
Cmd == Last.cmds[1]
A == Cmd.a
Act(c) == hist # <<>> /\ Cmd.c = c
From2(i) == {A[j] : j \in i..Len(A)}
\* what a list expression stands for under a configuration: <<>> if no branch of a select applies, else << set of labels >>
Lab(x) == ParseRel(x, "p")
Cfgs == {":k0", Def}
RECURSIVE Sem(_, _)
Sem(e, cfg) ==
  IF e = None THEN <<{}>>
  ELSE IF IsList(e) THEN <<{IF IsStr(e.k[i]) THEN Lab(e.k[i].v) ELSE Lab("@other//:" \o e.k[i].v) : i \in 1..Len(e.k)}>>
  ELSE IF e.t = "id" THEN <<{Lab("@other//:" \o e.v)}>>
  ELSE IF IsPlus(e) THEN LET x == Sem(e.k[1], cfg)
                             y == Sem(e.k[2], cfg)
                         IN IF x = <<>> \/ y = <<>> THEN <<>> ELSE <<x[1] \cup y[1]>>
  ELSE LET d == e.k[2]
           at(k) == {i \in 1..Len(d.k) : d.k[i].k[1].v = k}
           I == IF at(cfg) # {} THEN at(cfg) ELSE at(Def)
       IN IF I = {} THEN <<>> ELSE Sem(d.k[Min2(I)].k[2], cfg)
R(file, name) == LET i == TopNamed(file, name, E0) IN IF i = 0 THEN Call("none", <<>>) ELSE file.k[i]
V(file, a) == Attr(R(file, "r"), a)
All(e) == UNION {IF Sem(e, c) = <<>> THEN {} ELSE Sem(e, c)[1] : c \in Cfgs}
SemIs(a, F(_)) == \A c \in Cfgs : Sem(V(pre, a), c) # <<>> => Sem(V(f, a), c) = <<F(Sem(V(pre, a), c)[1])>>
Labs(q) == {Lab(x) : x \in q}
ListLaw == Focus = "list" =>
  /\ Act("add") => SemIs(A[1], LAMBDA q : q \cup Labs(From2(2)))
  /\ (Act("remove") /\ A[1] # "*" /\ Len(A) > 1) => SemIs(A[1], LAMBDA q : q \ Labs(From2(2)))
  /\ (Act("remove") /\ A = <<"*", "a">>) => SemIs("deps", LAMBDA q : q \ {Lab("a")}) /\ SemIs("data", LAMBDA q : q \ {Lab("a")})
  /\ (Act("remove") /\ Len(A) > 1) => ~(IsList(V(f, "deps")) /\ V(f, "deps").k = <<>> /\ V(pre, "deps") # V(f, "deps"))
  /\ (Act("move") /\ A[3] # "*") => LET moved == Labs(From2(3)) \cap All(V(pre, A[1]))
                                   IN SemIs(A[1], LAMBDA q : q \ Labs(From2(3))) /\ (\A c \in Cfgs : Sem(V(pre, A[1]), c) # <<>>) => SemIs(A[2], LAMBDA q : q \cup moved)
  /\ (Act("move") /\ A[3] = "*" /\ res.errs = 0) => ~HasAttr(R(f, "r"), A[1])
       /\ \A c \in Cfgs : (Sem(V(pre, A[1]), c) # <<>> /\ Sem(V(pre, A[2]), c) # <<>>) => Sem(V(f, A[2]), c) = <<Sem(V(pre, A[1]), c)[1] \cup Sem(V(pre, A[2]), c)[1]>>
  /\ (Act("replace") /\ A[1] = "deps") => SemIs("deps", LAMBDA q : {IF l = Lab(A[2]) THEN Lab(A[3]) ELSE l : l \in q})
\* all the elements, as often as they occur
RECURSIVE Times(_, _)
Times(e, l) == IF IsStr(e) THEN (IF Lab(e.v) = l THEN 1 ELSE 0) ELSE IF IsList(e) THEN Cardinality({i \in 1..Len(e.k) : Times(e.k[i], l) = 1}) ELSE IF IsPlus(e) THEN Times(e.k[1], l) + Times(e.k[2], l) ELSE 0
OnceLaw == Act("add") => \A x \in From2(2) : Times(V(f, A[1]), Lab(x)) <= Max2({1, Times(V(pre, A[1]), Lab(x))})
\* doing it again changes nothing
Idempotent == (hist # <<>> /\ Cmd.c \in {"add", "remove", "set", "set_if_absent", "dict_set", "dict_add", "dict_remove", "remove_if_equal", "comment", "remove_comment", "new_load", "set_select"} /\ res.errs = 0 /\ res.ch)
  => LET r == Run(f, Last.targets, Last.cmds, [E0 EXCEPT !.eol = Last.eol, !.types = Last.types]) IN r.errs = 0 /\ (r.f = f \/ r.f = CanonTb(f, DefaultTb) \/ (Cmd.c = "comment" /\ StripFile(r.f) = StripFile(CanonTb(f, DefaultTb))))
\* the attributes a command works on
Touched == CASE Cmd.c \in {"add", "set", "set_if_absent", "copy", "copy_no_overwrite", "dict_add", "dict_set", "dict_remove", "dict_list_add", "dict_replace_if_equal", "set_select", "remove_if_equal"} -> {A[1]}
             [] Cmd.c \in {"remove", "replace", "substitute"} -> IF A[1] = "*" THEN {"deps", "data", "cmd", "env", "size", "args", "tool", "foo"} ELSE {A[1]}
             [] Cmd.c \in {"move", "rename"} -> {A[1], A[2]}
             [] OTHER -> {}
RECURSIVE DelAttrs(_, _)
DelAttrs(call, as) == WithK(call, SelectSeq(call.k, LAMBDA x : ArgName(x) \notin as))
RuleCmds == {"add", "set", "set_if_absent", "copy", "copy_no_overwrite", "dict_add", "dict_set", "dict_remove", "dict_list_add", "dict_replace_if_equal", "set_select", "remove_if_equal", "remove", "replace", "substitute", "move", "rename"}
Rest(file) == Strip(WithK(file, [i \in 1..Len(file.k) |-> IF IsCall(file.k[i]) /\ RuleName(file.k[i], file, "p") = "r"
   THEN LET d == DelAttrs(file.k[i], Touched) IN IF Cmd.c = "set" /\ A[1] = "kind" THEN WithK(d, [d.k EXCEPT ![1] = Id("")]) ELSE d ELSE file.k[i]]))
FrameLaw == (Focus \in {"list", "scalar"} /\ hist # <<>> /\ Cmd.c \in RuleCmds) => Rest(Canon(pre)) = Rest(Canon(f))
FailLaw == (hist # <<>> /\ res.errs > 0) => f = pre
QuietLaw == (hist # <<>> /\ ~res.ch) => f = pre
\* attribute names stay unique
Names(q) == {q[i] : i \in 1..Len(q)}
UniqueLaw == hist # <<>> => \A i \in 1..Len(f.k) : IsCall(f.k[i]) => LET q == AttrNames(f.k[i]) IN Cardinality(Names(q)) = Len(q)
Canonized(n) == Strip(CanonTb(BF(<<Call("genrule", <<Asg(A[1], n)>>)>>), DefaultTb)).k[1].k[2].k[2]
Now(a) == Strip(V(f, a))
Was(a) == IF V(pre, a) = None THEN None ELSE Canonized(V(pre, a))
Has(file, a) == HasAttr(R(file, "r"), a)
Text1(s) == IF HasPrefix(s, "//p:") THEN From(s, 4) ELSE s
Dct(e) == [k \in {e.k[i].k[1].v : i \in {j \in 1..Len(e.k) : IsStr(e.k[j].k[1])}} |-> DictGet(e, k)]
DctOf(file, a) == IF V(file, a).t = "dict" THEN Dct(V(file, a)) ELSE << >>
ScalarLaw == Focus = "scalar" =>
  /\ (Act("set") /\ A[1] = "kind") => Kind(R(f, "r")) = A[2]
  /\ (Act("set") /\ A[1] \in {"cmd", "size"}) => V(f, A[1]) = S(Text1(A[2]))
  /\ (Act("set") /\ A[1] = "deps") => Sem(V(f, "deps"), Def) = <<Labs(From2(2))>>
  /\ (Act("set") /\ A[1] = "foo" /\ A[2] = "3") => V(f, "foo") = N("num", "3", <<>>)
  /\ Act("set_if_absent") => (IF Has(pre, A[1]) THEN Now(A[1]) = Was(A[1]) ELSE f = Run(pre, Last.targets, <<[Cmd EXCEPT !.c = "set"]>>, E0).f)
  /\ (Act("rename") /\ res.errs = 0) => Now(A[2]) = Was(A[1]) /\ ~Has(f, A[1])
  /\ Act("rename") => (res.errs > 0 <=> (~Has(pre, A[1]) \/ Has(pre, A[2])))
  /\ (Act("remove") /\ Len(A) = 1) => (IF A[1] = "*" THEN Names(AttrNames(R(f, "r"))) = {"name"} ELSE ~Has(f, A[1]))
  /\ Act("remove_if_equal") => (IF Has(f, A[1]) THEN Now(A[1]) = Was(A[1]) ELSE TRUE)
  /\ (Act("remove_if_equal") /\ V(pre, "cmd") = S(A[2])) => ~Has(f, "cmd")
  /\ (Act("copy") /\ res.errs = 0) => Now(A[1]) = Canonized(Attr(R(pre, "b"), A[1]))
  /\ Act("copy_no_overwrite") => (Has(pre, A[1]) => Now(A[1]) = Was(A[1]))
  /\ (Act("dict_set") /\ Len(A) = 2 /\ res.errs = 0) =>
       LET k == Upto(A[2], Index(A[2], ":") - 1)
           v == From(A[2], Index(A[2], ":") + 1)
       IN DOMAIN DctOf(f, A[1]) = DOMAIN DctOf(pre, A[1]) \cup {k} /\ DctOf(f, A[1])[k] = S(Text1(v)) /\ \A x \in DOMAIN DctOf(pre, A[1]) \ {k} : DctOf(f, A[1])[x] = DctOf(pre, A[1])[x]
  /\ (Act("dict_add") /\ res.errs = 0) =>
       LET k == Upto(A[2], Index(A[2], ":") - 1)
       IN DOMAIN DctOf(f, A[1]) = DOMAIN DctOf(pre, A[1]) \cup {k} /\ \A x \in DOMAIN DctOf(pre, A[1]) : DctOf(f, A[1])[x] = DctOf(pre, A[1])[x]
  /\ (Act("dict_remove") /\ V(pre, A[1]).t = "dict") =>
       LET left == DOMAIN DctOf(pre, A[1]) \ From2(2)
       IN DOMAIN DctOf(f, A[1]) = left /\ \A x \in left : DctOf(f, A[1])[x] = DctOf(pre, A[1])[x]
  /\ (Act("dict_replace_if_equal") /\ res.errs = 0) => \A x \in DOMAIN DctOf(pre, A[1]) :
       DctOf(f, A[1])[x] = IF x = A[2] /\ DctOf(pre, A[1])[x] = S(A[3]) THEN S(A[4]) ELSE DctOf(pre, A[1])[x]
  /\ (Act("set_select") /\ A[1] = "deps") => \A c \in Cfgs : Sem(V(f, "deps"), c) = <<{Lab(IF c = ":k0" THEN "x" ELSE "y")}>>

(* ---- files ---- *)
\* the table of loaded symbols: <<module, local name, symbol>>
Loads(file) == UNION {{<<file.k[i].v, file.k[i].k[j].v, file.k[i].k[j].k[1].v>> : j \in 1..Len(file.k[i].k)} : i \in {i \in 1..Len(file.k) : IsLoad(file.k[i])}}
LoadCount(file) == Len(Flat([i \in 1..Len(file.k) |-> IF IsLoad(file.k[i]) THEN file.k[i].k ELSE <<>>]))
Asked == {<<A[1], SymOf(A[j]).v, SymOf(A[j]).k[1].v>> : j \in 2..Len(A)}
Locals(q) == {x[2] : x \in q}
RuleSeq(file) == SelectSeq([i \in 1..Len(file.k) |-> IF IsCall(file.k[i]) /\ ~IsCallOf(file.k[i], "package") THEN <<Kind(file.k[i]), StrAttr(file.k[i], "name")>> ELSE <<>>], LAMBDA x : x # <<>>)
RuleNames(file) == {RuleName(file.k[i], file, "p") : i \in {i \in 1..Len(file.k) : IsCall(file.k[i])}}
Drop(q, x) == SelectSeq(q, LAMBDA y : y # x)
FileLaw == Focus = "file" =>
  /\ Act("new_load") => Loads(f) = Loads(pre) \cup {x \in Asked : ~\E y \in Loads(pre) : y[1] = x[1] /\ y[2] = x[2]}
  /\ Act("replace_load") => Loads(f) = {x \in Loads(pre) : x[2] \notin Locals(Asked)} \cup Asked
  /\ (hist # <<>> /\ Cmd.c \in {"new_load", "replace_load"}) => LoadCount(f) = Cardinality(Loads(f)) /\ RuleSeq(f) = RuleSeq(pre)
  /\ (hist # <<>> /\ Cmd.c \notin {"new_load", "replace_load", "substitute_load"}) => Loads(f) = Loads(pre)
  /\ Act("new") => LET n == <<A[1], A[2]>>
                       I == {i \in 1..Len(RuleSeq(f)) : RuleSeq(f)[i] = n}
                       rel(x) == LET J == {i \in 1..Len(RuleSeq(f)) : RuleSeq(f)[i][2] = x} IN IF J = {} THEN 0 ELSE Min2(J)
                   IN /\ (res.errs > 0 => A[2] \in RuleNames(pre)) /\ ((\E i \in 1..Len(RuleSeq(pre)) : RuleSeq(pre)[i][2] = A[2]) => res.errs > 0)
                      /\ res.errs = 0 => Cardinality(I) = 1 /\ Drop(RuleSeq(f), n) = RuleSeq(pre)
                      /\ (res.errs = 0 /\ Len(A) = 4 /\ rel(A[4]) # 0) => Min2(I) = rel(A[4]) + (IF A[3] = "before" THEN -1 ELSE 1)
                      /\ (res.errs = 0 /\ Len(A) = 2 /\ \E i \in 1..Len(RuleSeq(pre)) : RuleSeq(pre)[i][1] = A[1]) => Min2(I) > 1 /\ RuleSeq(f)[Min2(I) - 1][1] = A[1]
  /\ Act("delete") => LET t == Last.targets[1]
                          gone(x) == CASE t = "all" -> TRUE [] t = "%cc_library" -> x[1] = "cc_library" [] t = "__pkg__" -> FALSE [] OTHER -> x[2] = t
                      IN RuleSeq(f) = SelectSeq(RuleSeq(pre), LAMBDA x : ~gone(x))

(* ---- targets ---- *)
RECURSIVE AllCalls(_)
AllCalls(n) == IF IsCall(n) THEN <<n>> ELSE Flat([i \in 1..Len(n.k) |-> AllCalls(n.k[i])])
TargetLaw == (Focus = "target" /\ hist # <<>>) =>
  LET t == Last.targets[1]
      b == AllCalls(pre)
      new == t = "__pkg__" /\ ~\E i \in 1..Len(b) : Kind(b[i]) = "package"
      c == SelectSeq(AllCalls(f), LAMBDA x : ~(new /\ Kind(x) = "package"))
      top(x) == \E i \in 1..Len(pre.k) : pre.k[i] = x
      named(x) == top(x) /\ RuleName(x, pre, "p") = t
      firstNamed(i) == named(b[i]) /\ \A j \in 1..i - 1 : ~named(b[j])
      exported(i) == Kind(b[i]) = "exports_files" /\ \E j \in 1..Len(b[i].k[2].k) : b[i].k[2].k[j].v = t
      anyNamed == \E i \in 1..Len(b) : named(b[i])
      denotes(i) == CASE t = "__pkg__" -> Kind(b[i]) = "package"
                      [] anyNamed -> firstNamed(i)
                      [] \E j \in 1..Len(b) : exported(j) -> exported(i) /\ \A j \in 1..i - 1 : ~exported(j)
                      [] t \in {"all", "*"} -> TRUE
                      [] Chr(t, 1) = "%" -> Kind(b[i]) = From(t, 2)
                      [] OTHER -> FALSE
      sel(i) == denotes(i) /\ (Last.types = <<>> \/ InSeq(Kind(b[i]), Last.types))
      hit(i) == HasAttr(c[i], "size")
      fails == ~(\E i \in 1..Len(b) : denotes(i)) /\ t # "__pkg__" /\ ~(t \in {"all", "*"} \/ Chr(t, 1) = "%")
  IN /\ Len(hist) = 1 => (Len(b) = Len(c) /\ \A i \in 1..Len(b) : sel(i) <=> hit(i))
     /\ Len(hist) = 1 => (fails <=> res.errs > 0)

(* ---- comments ---- *)
CommentLaw == (Focus = "comment" /\ hist # <<>>) =>
  /\ StripFile(CanonTb(pre, DefaultTb)) = StripFile(CanonTb(f, DefaultTb))
  /\ Act("remove_comment") => LET g == Run(f, <<"r">>, <<C("print_comment", A)>>, E0) IN g.errs = 0 => (g.out = <<Text("")>>)
  /\ (Act("comment") /\ Len(A) # 2 /\ res.errs = 0 /\ A[Len(A)] \in {"new."}) =>
        LET q == Run(f, <<"r">>, <<C("print_comment", SubSeq(A, 1, Len(A) - 1))>>, E0) IN q.errs = 0 => Contains(q.out[1].s, "new.")
PrintLaw == (hist # <<>> /\ Cmd.c \in Queries) => f = pre

\* comments that are not on what was asked to change stay
RECURSIVE CommentsOf(_)
CommentsOf(n) == {From(n.c[i], 2) : i \in 1..Len(n.c)} \cup UNION {CommentsOf(n.k[i]) : i \in 1..Len(n.k)}
CommentFrame == (Focus = "frame" /\ hist # <<>>) =>
  LET gone == CASE Cmd.c = "delete" -> {"# r1.", "# r2.", "# attr.", "# val."} \cup (IF Last.targets[1] = "r" THEN {} ELSE {"# other."})
                [] Cmd.c = "remove" /\ A = <<"size">> -> {"# attr."}
                [] Cmd.c = "remove" -> {"# val."}
                [] Cmd.c = "set" /\ A[1] = "size" -> {}
                [] OTHER -> {}
  IN CommentsOf(pre) \ CommentsOf(f) \subseteq gone
Emit == Len(hist) = Depth => PrintT("CASE " \o ToJson([tree |-> start, lay |-> 0, pkg |-> "p", dir |-> "p", fname |-> "BUILD", steps |-> hist]))
====
