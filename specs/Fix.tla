---- MODULE Fix ----
(* What the automatic fixes do: every category is a rewriting rule on syntax trees.  A rule looks at one node; the fix of a
   category applies it everywhere until it applies nowhere, the fix of several categories is one after the other in the order
   of their names.  Rules that need a load statement also say which symbols the file has to load.
   Trees are without parentheses. *)
EXTENDS Scope, SequencesExt
\* ---- environments: names bound, evident types of variables, whether ctx is a parameter
Env(b, ty, ctx) == [b |-> b, ty |-> ty, ctx |-> ctx, ld |-> {}]
TyOf(e, x) == IF x \in DOMAIN e.ty THEN e.ty[x] ELSE ""
SetTy(e, x, t) == [e EXCEPT !.ty = [y \in (DOMAIN e.ty) \cup {x} |-> IF y = x THEN t ELSE e.ty[y]]]
Forget(e, X) == [e EXCEPT !.ty = [y \in (DOMAIN e.ty) \ X |-> e.ty[y]], !.b = e.b \cup X, !.ld = {p \in e.ld : p[2] \notin X}]

\* ---- evident types of expressions
IsHexOct(s) == Len(s) > 2 /\ Lower(Upto(s, 2)) \in {"0x", "0o"}
AllDigits(s) == \A i \in 1..Len(s) : Contains("0123456789", Chr(s, i))
CallTypes == [bool |-> "bool", int |-> "int", float |-> "float", str |-> "string", depset |-> "depset", dict |-> "dict", list |-> "list"]
Compare == {">", ">=", "<", "<=", "==", "!=", "in", "not in"}
Arith == {"+", "-", "*", "/", "//", "%", "|"}
RECURSIVE Type(_, _)
Type(n, e) ==
  CASE n.t = "str" -> "string"
    [] n.t = "dict" -> "dict"
    [] n.t = "list" -> "list"
    [] n.t = "comp" -> IF n.v = "{" THEN "dict" ELSE "list"
    [] n.t = "num" -> IF AllDigits(n.v) \/ IsHexOct(n.v) THEN "int" ELSE "float"
    [] n.t = "call" -> IF n.k[1].t = "id" THEN (IF n.k[1].v \in DOMAIN CallTypes THEN CallTypes[n.k[1].v] ELSE "")
                       ELSE IF n.k[1].t = "dot" /\ n.k[1].v = "args" /\ Type(n.k[1].k[1], e) = "actions" THEN "args" ELSE ""
    [] n.t = "id" -> IF n.v \in {"True", "False"} THEN "bool" ELSE IF n.v = "None" THEN "none" ELSE IF n.v = "ctx" /\ e.ctx THEN "ctx" ELSE TyOf(e, n.v)
    [] n.t = "dot" -> IF n.v = "actions" /\ Type(n.k[1], e) = "ctx" THEN "actions" ELSE ""
    [] n.t = "bin" -> IF n.v \in Compare THEN "bool" ELSE IF n.v \notin Arith THEN ""
                      ELSE LET a == Type(n.k[1], e) b == Type(n.k[2], e)
                           IN IF a # "" THEN a ELSE IF n.v # "%" \/ b = "string" THEN b ELSE ""
    [] OTHER -> ""

\* ---- helpers
IsDotOf(n, name, base) == n.t = "dot" /\ n.v = name /\ n.k[1].t = "id" /\ n.k[1].v = base
IsBaseDot(n, base) == n.t = "dot" /\ n.k[1].t = "id" /\ n.k[1].v = base
Dot(x, name) == N("dot", name, <<x>>)
Kw(name, x) == Asg(name, x)
KwAt(call, name) == LET I == {i \in 2..Len(call.k) : call.k[i].t = "asg" /\ call.k[i].k[1].t = "id" /\ call.k[i].k[1].v = name} IN IF I = {} THEN 0 ELSE Min2(I)
HasKw(call, name) == KwAt(call, name) > 0
SetArg(call, i, x) == [call EXCEPT !.k[i] = x]
Drop(call, i) == [call EXCEPT !.k = RemoveIdx(@, i)]
Named(a, name) == [a EXCEPT !.k[1] = Id(name)]
Positional(a) == IF a.t = "asg" THEN a.k[2] ELSE a
Keyword(a, name) == IF a.t = "asg" THEN Named(a, name) ELSE Kw(name, a)
Negate(x) == IF x.t = "un" /\ x.v = "not" THEN x.k[1] ELSE IF x.t = "id" /\ x.v = "True" THEN Id("False") ELSE IF x.t = "id" /\ x.v = "False" THEN Id("True") ELSE N("un", "not", <<x>>)
IsAttrDef(n) == IsCall(n) /\ IsBaseDot(n.k[1], "attr")
Actions(name) == Dot(Dot(Id("ctx"), "actions"), name)
OldActions == {"new_file", "experimental_new_directory", "file_action", "action", "empty_action", "template_action"}
Rename(call, from, to) == IF HasKw(call, from) THEN SetArg(call, KwAt(call, from), Named(call.k[KwAt(call, from)], to)) ELSE call
CtxAction(n) ==
  LET d == n.k[1].v na == Len(n.k) - 1
      to(x) == [n EXCEPT !.k[1] = Actions(x)]
  IN CASE d = "new_file" -> IF na > 2 THEN n ELSE IF na = 2 THEN CallN(Actions("declare_file"), <<Positional(n.k[3]), Keyword(n.k[2], "sibling")>>) ELSE to("declare_file")
       [] d = "experimental_new_directory" -> to("declare_directory")
       [] d = "file_action" -> Rename(to("write"), "executable", "is_executable")
       [] d = "action" -> IF HasKw(n, "command") THEN to("run_shell") ELSE to("run")
       [] d = "empty_action" -> to("do_nothing")
       [] OTHER -> Rename(to("expand_template"), "executable", "is_executable")
\* positional parameters of builtins, in order
Signatures == [all |-> <<"elements">>, any |-> <<"elements">>, tuple |-> <<"x">>, list |-> <<"x">>, len |-> <<"x">>, str |-> <<"x">>, repr |-> <<"x">>, bool |-> <<"x">>,
  int |-> <<"x">>, dir |-> <<"x">>, type |-> <<"x">>, hasattr |-> <<"x", "name">>, getattr |-> <<"x", "name", "default">>, select |-> <<"x">>]
ArgRank(a) == IF a.t = "asg" /\ a.v = "=" THEN 1 ELSE IF a.t = "un" /\ a.v = "*" THEN 2 ELSE IF a.t = "un" /\ a.v = "**" THEN 3 ELSE 0
KwPositional(n) ==
  LET f == IF n.k[1].t = "id" THEN n.k[1].v ELSE IF IsBaseDot(n.k[1], "native") THEN n.k[1].v ELSE ""
  IN IF f \notin DOMAIN Signatures THEN n ELSE
     LET sig == Signatures[f]
         hit(i) == i <= Len(sig) /\ ArgName(n.k[i + 1]) = sig[i] /\ ArgRank(n.k[i + 1]) = 1
         na == Len(n.k) - 1
         rank == [i \in 1..na |-> IF hit(i) THEN 0 ELSE ArgRank(n.k[i + 1])]
     IN IF \A i \in 1..na - 1 : rank[i] <= rank[i + 1] THEN CallN(n.k[1], [i \in 1..na |-> IF hit(i) THEN n.k[i + 1].k[2] ELSE n.k[i + 1]]) ELSE n
ToList(x) == CallN(Dot(x, "to_list"), <<>>)
OneArg == {"all", "any", "depset", "len", "sorted", "max", "min", "list", "tuple"}
IsDepset(n, e) == Type(n, e) = "depset"
DepsetIter(n, m, e) ==
  CASE n.t \in {"for", "forc"} -> IF IsDepset(n.k[2], e) THEN [m EXCEPT !.k[2] = ToList(@)] ELSE m
    [] n.t = "bin" -> IF n.v \in {"in", "not in"} /\ IsDepset(n.k[2], e) THEN [m EXCEPT !.k[2] = ToList(@)] ELSE m
    [] IsCall(n) /\ n.k[1].t = "id" /\ n.k[1].v \in OneArg -> IF Len(n.k) = 2 /\ IsDepset(n.k[2], e) THEN (IF n.k[1].v = "list" THEN ToList(m.k[2]) ELSE [m EXCEPT !.k[2] = ToList(@)]) ELSE m
    [] IsCallOf(n, "zip") -> [m EXCEPT !.k = [i \in 1..Len(@) |-> IF i > 1 /\ IsDepset(n.k[i], e) THEN ToList(@[i]) ELSE @[i]]]
    [] OTHER -> m
\* ---- dictionaries: string keys in order among their places, private ones behind, the default condition last
KeyLess(a, b) ==
  LET x == a.k[1].v y == b.k[1].v d == "//conditions:default" IN
  IF HasPrefix(x, "_") THEN HasPrefix(y, "_") /\ StrLess(x, y) ELSE IF HasPrefix(y, "_") THEN TRUE
  ELSE IF x = d THEN FALSE ELSE IF y = d THEN TRUE ELSE StrLess(x, y)
SortDict(m) ==
  LET st == SelectSeq(m.k, LAMBDA kv : kv.k[1].t = "str")
      so == SortBy(st, KeyLess)
      nth(i) == Cardinality({j \in 1..i : m.k[j].k[1].t = "str"})
  IN [m EXCEPT !.k = [i \in 1..Len(m.k) |-> IF m.k[i].k[1].t = "str" THEN so[nth(i)] ELSE m.k[i]]]
\* ---- texts
RECURSIVE Sky(_, _)
\* replace the outdated name of the language from position i on, except next to a slash
Sky(s, i) ==
  IF i + 6 > Len(s) THEN s
  ELSE IF Lower(SubSeq(s, i, i + 6)) # "skylark" THEN Sky(s, i + 1)
  ELSE IF (i > 1 /\ Chr(s, i - 1) = "/") \/ (i + 7 <= Len(s) /\ Chr(s, i + 7) = "/") THEN Sky(s, i + 7)
  ELSE LET w == SubSeq(s, i, i + 6) u == IF w = "SKYLARK" THEN "STARLARK" ELSE IF Chr(w, 1) = "S" THEN "Starlark" ELSE "starlark"
       IN Sky(Upto(s, i - 1) \o u \o From(s, i + 7), i + 8)
Starlark(s) == Sky(s, 1)

\* ---- loads: functions and symbols that are not builtin anymore
LoadRule(funs, syms, lab) == [funs |-> funs, syms |-> syms, lab |-> lab, bzl |-> FALSE]
Toolchains(rule, pre) == LoadRule({rule}, {}, pre \o "/toolchains:" \o rule \o ".bzl")
RuleOf(rule, pre) == LoadRule({rule}, {}, pre \o ":" \o rule \o ".bzl")
Symbol(s, pre, file) == LoadRule({}, {s}, pre \o "/common:" \o file \o ".bzl")
Cc == "@rules_cc//cc"
Java == "@rules_java//java"
Sh == "@rules_shell//shell"
Proto == "@protobuf//bazel"
AndroidRules == {"aar_import", "android_binary", "android_device", "android_instrumentation_test", "android_library", "android_local_test"}
PyRules == {"py_library", "py_binary", "py_test", "py_runtime"}
LoadCats == [c \in {"git-repository", "http-archive", "native-android", "native-cc-binary", "native-cc-library", "native-cc-objc-library", "native-cc-toolchain", "native-cc-fdo-profile", "native-cc-common",
                    "native-cc-debug-package-info", "native-cc-info", "native-cc-shared-library-info", "native-java-binary", "native-java-library", "native-java-package-config", "native-java-runtime", "native-java-common", "native-java-info",
                    "native-proto", "native-java-proto", "native-cc-proto", "native-proto-lang-toolchain", "native-proto-info", "native-proto-common", "native-py", "native-sh-binary", "native-sh-library", "native-sh-test"} |->
  CASE c = "git-repository" -> [LoadRule({"git_repository", "new_git_repository"}, {}, "@bazel_tools//tools/build_defs/repo:git.bzl") EXCEPT !.bzl = TRUE]
    [] c = "http-archive" -> [LoadRule({"http_archive"}, {}, "@bazel_tools//tools/build_defs/repo:http.bzl") EXCEPT !.bzl = TRUE]
    [] c = "native-android" -> LoadRule(AndroidRules, {}, "@rules_android//android:rules.bzl")
    [] c = "native-cc-binary" -> RuleOf("cc_binary", Cc)
    [] c = "native-cc-library" -> RuleOf("cc_library", Cc)
    [] c = "native-cc-objc-library" -> RuleOf("objc_library", Cc)
    [] c = "native-cc-toolchain" -> Toolchains("cc_toolchain", Cc)
    [] c = "native-cc-fdo-profile" -> Toolchains("fdo_profile", Cc)
    [] c = "native-cc-common" -> Symbol("cc_common", Cc, "cc_common")
    [] c = "native-cc-debug-package-info" -> Symbol("DebugPackageInfo", Cc, "debug_package_info")
    [] c = "native-cc-info" -> Symbol("CcInfo", Cc, "cc_info")
    [] c = "native-cc-shared-library-info" -> Symbol("CcSharedLibraryInfo", Cc, "cc_shared_library_info")
    [] c = "native-java-binary" -> RuleOf("java_binary", Java)
    [] c = "native-java-library" -> RuleOf("java_library", Java)
    [] c = "native-java-package-config" -> Toolchains("java_package_configuration", Java)
    [] c = "native-java-runtime" -> Toolchains("java_runtime", Java)
    [] c = "native-java-common" -> Symbol("java_common", Java, "java_common")
    [] c = "native-java-info" -> Symbol("JavaInfo", Java, "java_info")
    [] c = "native-proto" -> RuleOf("proto_library", Proto)
    [] c = "native-java-proto" -> RuleOf("java_proto_library", Proto)
    [] c = "native-cc-proto" -> RuleOf("cc_proto_library", Proto)
    [] c = "native-proto-lang-toolchain" -> Toolchains("proto_lang_toolchain", Proto)
    [] c = "native-proto-info" -> Symbol("ProtoInfo", Proto, "proto_info")
    [] c = "native-proto-common" -> Symbol("proto_common", Proto, "proto_common")
    [] c = "native-py" -> LoadRule(PyRules, {}, "@rules_python//python:defs.bzl")
    [] OTHER -> LET r == CASE c = "native-sh-binary" -> "sh_binary" [] c = "native-sh-library" -> "sh_library" [] OTHER -> "sh_test" IN RuleOf(r, Sh)]
IsLoadCat(cat) == cat \in DOMAIN LoadCats
NativeCall(n) == IsCall(n) /\ IsBaseDot(n.k[1], "native")
\* native.f() stays if f means something else there
Free(cat, x, e) == x \notin e.b \/ <<LoadCats[cat].lab, x>> \in e.ld

\* ---- the rule of a category at one node: n is the node, m the node with its parts already fixed
Apply(cat, n, m, e) ==
  CASE cat = "integer-division" ->
         IF n.t = "bin" /\ n.v = "/" /\ Type(n.k[1], e) = "int" /\ Type(n.k[2], e) = "int" THEN WithV(m, "//")
         ELSE IF n.t = "asg" /\ n.v = "/=" /\ Type(n.k[1], e) = "int" /\ Type(n.k[2], e) = "int" THEN WithV(m, "//=") ELSE m
    [] cat = "attr-cfg" ->
         IF ~IsAttrDef(n) \/ ~HasKw(n, "cfg") THEN m
         ELSE LET i == KwAt(n, "cfg") x == n.k[i].k[2] IN IF x.t = "str" /\ x.v = "data" THEN Drop(m, i) ELSE IF x.t = "str" /\ x.v = "host" THEN SetArg(m, i, Kw("cfg", S("exec"))) ELSE m
    [] cat = "attr-non-empty" -> IF ~IsAttrDef(n) \/ ~HasKw(n, "non_empty") THEN m ELSE LET i == KwAt(n, "non_empty") IN SetArg(m, i, Kw("allow_empty", Negate(m.k[i].k[2])))
    [] cat = "attr-single-file" ->
         IF ~IsAttrDef(n) \/ ~HasKw(n, "single_file") THEN m
         ELSE LET i == KwAt(n, "single_file") j == KwAt(n, "allow_files")
              IN IF n.k[i].k[2].t = "id" /\ n.k[i].k[2].v = "False" THEN Drop(m, i)
                 ELSE LET v == IF j > 0 THEN m.k[j].k[2] ELSE m.k[i].k[2] m2 == SetArg(m, i, Kw("allow_single_file", v)) IN IF j > 0 THEN Drop(m2, j) ELSE m2
    [] cat = "ctx-actions" -> IF IsCall(n) /\ IsBaseDot(n.k[1], "ctx") /\ n.k[1].v \in OldActions THEN CtxAction(m) ELSE m
    [] cat = "ctx-args" ->
         IF ~(IsCall(n) /\ n.k[1].t = "dot" /\ n.k[1].v = "add" /\ Type(n.k[1].k[1], e) = "args" /\ (HasKw(n, "before_each") \/ HasKw(n, "join_with") \/ HasKw(n, "map_fn"))) THEN m
         ELSE LET jo == HasKw(n, "join_with") b == KwAt(n, "before_each")
                  m1 == [m EXCEPT !.k[1].v = IF jo THEN "add_joined" ELSE "add_all"]
                  m2 == IF jo /\ b > 0 THEN SetArg(m1, b, Kw("format_each", Plus(m.k[b].k[2], S("%s")))) ELSE m1
              IN Rename(m2, "map_fn", "map_each")
    [] cat = "package-name" -> IF n.t = "id" /\ n.v = "PACKAGE_NAME" /\ n.v \notin e.b THEN CallN(Dot(Id("native"), "package_name"), <<>>) ELSE m
    [] cat = "repository-name" -> IF n.t = "id" /\ n.v = "REPOSITORY_NAME" /\ n.v \notin e.b THEN CallN(Dot(Id("native"), "repository_name"), <<>>) ELSE m
    [] cat = "output-group" ->
         IF n.t = "dot" /\ n.v = "output_group" /\ n.k[1].t = "dot" /\ IsDotOf(n.k[1].k[1], "attr", "ctx") THEN N("index", "", <<m.k[1], Id("OutputGroupInfo")>>) ELSE m
    [] cat = "native-build" -> IF IsBaseDot(n, "native") THEN Id(n.v) ELSE m
    [] cat = "keyword-positional-params" -> IF IsCall(n) THEN KwPositional(m) ELSE m
    [] cat = "depset-iteration" -> DepsetIter(n, m, e)
    [] cat = "list-append" -> IF n.t = "asg" /\ n.v = "+=" /\ n.k[2].t = "list" /\ Len(n.k[2].k) = 1 THEN CallN(Dot(m.k[1], "append"), m.k[2].k) ELSE m
    [] cat = "unsorted-dict-items" -> IF n.t = "dict" THEN SortDict(m) ELSE m
    [] IsLoadCat(cat) -> IF NativeCall(n) /\ n.k[1].v \in LoadCats[cat].funs /\ Free(cat, n.k[1].v, e) THEN [m EXCEPT !.k[1] = Id(n.k[1].v)] ELSE m
    [] OTHER -> m
\* parts that are not fixed: suppressed by a comment, or dictionaries marked as deliberately unsorted
Skip(cat, n) == HasC(n, "buildifier: disable=" \o cat) \/ (cat = "unsorted-dict-items" /\ HasC(n, "@unsorted-dict-items"))

\* the environment inside of a node
RECURSIVE TypesOf(_, _)
TypesOf(q, e) == IF q = <<>> THEN e ELSE
  TypesOf(Tail(q), IF q[1].t = "asg" /\ q[1].v = "=" /\ q[1].k[1].t = "id" /\ Type(q[1].k[2], e) # "" THEN SetTy(e, q[1].k[1].v, Type(q[1].k[2], e)) ELSE e)
\* all the statements of a function, those of its blocks included
OwnStmts(q) == LET o == Own(q, 1) IN [i \in 1..Len(o) |-> o[i].s]
Inside(n, e) ==
  CASE n.t = "file" -> LET B == Names(BindsAll(Own(n.k, 1))) LI == {i \in 1..Len(n.k) : n.k[i].t = "load"}
                           LS == UNION {{<<n.k[i].v, n.k[i].k[j]>> : j \in 1..Len(n.k[i].k)} : i \in LI}
                       IN TypesOf(OwnStmts(n.k), [Env(B \cup {p[2].v : p \in LS}, <<>>, FALSE) EXCEPT !.ld = {<<p[1], p[2].v>> : p \in {p \in LS : p[2].v = p[2].k[1].v /\ p[2].v \notin B}}])
    [] n.t = "def" -> LET P == ParamNames(n) X == P \cup Locals(n.k[3].k) D == SelectSeq(n.k[1].k, LAMBDA p : p.t = "asg" /\ p.k[1].t = "id" /\ Type(p.k[2], e) # "")
                          in == [Forget(e, X) EXCEPT !.ctx = "ctx" \in P \/ (e.ctx /\ "ctx" \notin X)]
                          dt == [x \in {D[i].k[1].v : i \in 1..Len(D)} |-> LET i == CHOOSE i \in 1..Len(D) : D[i].k[1].v = x IN Type(D[i].k[2], e)]
                          \* a parameter has the evident type of its default
                      IN TypesOf(OwnStmts(n.k[3].k), [in EXCEPT !.ty = dt @@ @])
    [] n.t = "comp" -> Forget(e, ClauseVars(Tail(n.k)))
    [] n.t = "lambda" -> Forget(e, {ParamName(n.k[1].k[i]) : i \in 1..Len(n.k[1].k)})
    [] OTHER -> e
\* parts of a node a rule may be applied to: no keywords, loads or types
Parts(n) == CASE n.t = "load" -> {} [] n.t = "params" -> {i \in 1..Len(n.k) : n.k[i].t = "asg"} [] n.t = "asg" /\ n.k[1].t = "id" -> {2} [] n.t = "typed" -> {} [] n.t = "def" -> {1, 3} [] OTHER -> 1..Len(n.k)
\* defaults of parameters are outside of the function
EnvAt(n, i, e, e2) == IF n.t = "def" /\ i = 1 THEN e ELSE e2
\* what takes the place of a node takes over its comments
Keep(r, m) == IF r.c = <<>> THEN [r EXCEPT !.c = m.c] ELSE r
RECURSIVE Rw(_, _, _)
Rw(cat, n, e) ==
  IF Skip(cat, n) THEN n ELSE
  LET e2 == Inside(n, e) P == Parts(n) m == [n EXCEPT !.k = [i \in 1..Len(n.k) |-> IF i \in P THEN Rw(cat, n.k[i], EnvAt(n, i, e, e2)) ELSE n.k[i]]]
  IN Keep(Apply(cat, n, m, e2), n)
E0 == Env({}, <<>>, FALSE)
\* everything one application of the rule can lead to
RECURSIVE Steps(_, _, _)
Steps(cat, n, e) ==
  IF Skip(cat, n) THEN {} ELSE
  LET e2 == Inside(n, e) a == Keep(Apply(cat, n, n, e2), n)
  IN (IF a = n THEN {} ELSE {a}) \cup UNION {{[n EXCEPT !.k[i] = x] : x \in Steps(cat, n.k[i], EnvAt(n, i, e, e2))} : i \in Parts(n)}

\* symbols the file has to load for a category
RECURSIVE Needs(_, _, _)
Needs(r, n, e) ==
  LET e2 == Inside(n, e)
      \* (a symbol loaded from the same module already is added to the set as well: it is there)
      own == IF NativeCall(n) /\ n.k[1].v \in r.funs /\ (n.k[1].v \notin e.b \/ <<r.lab, n.k[1].v>> \in e.ld) THEN {n.k[1].v}
             ELSE IF IsCall(n) /\ n.k[1].t = "id" /\ n.k[1].v \in r.funs \ e.b THEN {n.k[1].v}
             ELSE IF n.t = "id" /\ n.v \in r.syms \ e.b THEN {n.v} ELSE {}
  IN own \cup UNION {Needs(r, n.k[i], EnvAt(n, i, e, e2)) : i \in Parts(n)}
\* add the symbols to the first load of the module, or a new load behind the comments and docstring at the top
AddLoad(f, lab, syms) ==
  IF syms = {} THEN f ELSE
  LET I == {i \in 1..Len(f.k) : f.k[i].t = "load" /\ f.k[i].v = lab}
      sym(q) == [i \in 1..Len(q) |-> N("sym", q[i], <<Id(q[i])>>)]
      new == sym(SetToSortSeq(syms, StrLess))
      top == {i \in 1..Len(f.k) : f.k[i].t \notin {"comment", "str"}}
      at == IF top = {} THEN Len(f.k) ELSE Min2(top)
  IN IF I # {} THEN LET i == Min2(I) IN [f EXCEPT !.k[i].k = @ \o SelectSeq(new, LAMBDA s : \A j \in 1..Len(f.k[i].k) : f.k[i].k[j].v # s.v)]
     ELSE [f EXCEPT !.k = SubSeq(f.k, 1, at - 1) \o <<N("load", lab, new)>> \o SubSeq(f.k, at, Len(f.k))]
\* ---- files
Types(cat) == IF cat \in {"attr-cfg", "attr-non-empty", "attr-single-file", "ctx-actions", "ctx-args", "package-name", "repository-name", "output-group"} THEN {".bzl"}
              ELSE IF cat = "native-build" THEN {"BUILD"}
              ELSE IF IsLoadCat(cat) THEN (IF LoadCats[cat].bzl THEN {".bzl"} ELSE {".bzl", "BUILD"})
              ELSE IF cat = "package-on-top" THEN {".bzl", "BUILD", "default"}
              ELSE {".bzl", "BUILD", "default", "WORKSPACE", "MODULE.bazel"}
OnTop == {"str", "comment", "load"}
PackageOnTop(f) ==
  LET q == f.k
      A == {i \in 1..Len(q) : q[i].t = "asg"}
      lim == IF A = {} THEN Len(q) + 1 ELSE Min2(A)
      pkg(i) == IsCallOf(q[i], "package")
      real == {i \in 1..lim - 1 : ~pkg(i) /\ q[i].t \notin OnTop /\ ~IsCallOf(q[i], "licenses") /\ ~IsCallOf(q[i], "package_group")}
      first == IF real = {} THEN lim ELSE Min2(real)
      mis == {i \in first..lim - 1 : pkg(i)}
      sel(a, b, P(_)) == LET idx == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : i >= a /\ i <= b /\ P(i)) IN [i \in 1..Len(idx) |-> q[idx[i]]]
  IN IF \E i \in mis : Skip("package-on-top", q[i]) THEN f   \* (not generated together with others)
     ELSE [f EXCEPT !.k = SubSeq(q, 1, first - 1) \o sel(first, Len(q), LAMBDA i : i \in mis) \o sel(first, Len(q), LAMBDA i : i \notin mis)]
\* first statement that is no comment, 0 if there is none
FirstStmt(q) == LET I == {i \in 1..Len(q) : q[i].t # "comment"} IN IF I = {} THEN 0 ELSE Min2(I)
DocFix(q) == LET i == FirstStmt(q) IN IF i > 0 /\ q[i].t = "str" /\ ~Skip("skylark-docstring", q[i]) THEN [q EXCEPT ![i].v = Starlark(@)] ELSE q
SkyDoc(f) == LET q == DocFix(f.k) IN [f EXCEPT !.k = [i \in 1..Len(q) |-> IF q[i].t = "def" /\ ~Skip("skylark-docstring", q[i]) THEN [q[i] EXCEPT !.k[3].k = DocFix(@)] ELSE q[i]]]
FixCat(cat, f) ==
  IF f.v \notin Types(cat) THEN f
  ELSE IF cat = "package-on-top" THEN PackageOnTop(f)
  ELSE IF cat = "skylark-docstring" THEN SkyDoc(f)
  ELSE IF IsLoadCat(cat) THEN AddLoad(Rw(cat, f, E0), LoadCats[cat].lab, Needs(LoadCats[cat], f, E0))
  ELSE Rw(cat, f, E0)
\* a rule applies only to files in which some name occurs (no rule introduces names another one is about)
RECURSIVE WordsOf(_)
WordsOf(n) == {n.v} \cup UNION {WordsOf(n.k[i]) : i \in 1..Len(n.k)}
Trigger(cat) ==
  IF IsLoadCat(cat) THEN LoadCats[cat].funs \cup LoadCats[cat].syms
  ELSE CASE cat \in {"attr-cfg", "attr-non-empty", "attr-single-file"} -> {"attr"}
         [] cat \in {"ctx-actions", "ctx-args", "output-group"} -> {"ctx"}
         [] cat = "package-name" -> {"PACKAGE_NAME"} [] cat = "repository-name" -> {"REPOSITORY_NAME"} [] cat = "native-build" -> {"native"}
         [] cat = "integer-division" -> {"/", "/="} [] cat = "depset-iteration" -> {"depset"} [] cat = "list-append" -> {"+="}
         [] OTHER -> {""}
Relevant(cats, f) == LET W == WordsOf(f) IN SelectSeq(cats, LAMBDA c : Trigger(c) = {""} \/ Trigger(c) \cap W # {})
RECURSIVE FixAll(_, _)
FixAll(cats, f) == IF cats = <<>> THEN f ELSE FixAll(Tail(cats), FixCat(cats[1], f))
SortedCats(cats) == SortBy(cats, StrLess)
\* the categories in their order
FixedIn(cats, f) == FixAll(Relevant(cats, f), f)
Fixed(cats, f) == FixedIn(SortedCats(cats), f)
\* comments that have to be in the fixed file
RECURSIVE Coms(_)
Coms(n) == n.c \o Flat([i \in 1..Len(n.k) |-> Coms(n.k[i])])
\* two files are the same up to comments, the places of comments, and the order of the loads and of the symbols of one
LoadSet(f) == {<<f.k[i].v, {<<f.k[i].k[j].v, f.k[i].k[j].k[1].v>> : j \in 1..Len(f.k[i].k)}>> : i \in {i \in 1..Len(f.k) : f.k[i].t = "load"}}
Rest(f) == SelectSeq(f.k, LAMBDA s : s.t \notin {"load", "comment"})
LoadAt(f) == LET q == SelectSeq(f.k, LAMBDA s : s.t # "comment") IN [i \in 1..Len(q) |-> q[i].t = "load"]
Same(f, g) == LoadSet(f) = LoadSet(g) /\ Rest(Strip(f)) = Rest(Strip(g)) /\ LoadAt(f) = LoadAt(g)
====
