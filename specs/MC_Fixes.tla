---- MODULE MC_Fixes ----
(* Fixes one at a time: from every small program, nested expressions that several categories are about, rules are applied to
   single nodes in any order, those of different categories mixed, until nothing is left to be fixed.  However it goes, it
   stops, and in the same file: the one Fix.tla gets from fixing everything at once, category by category. *)
EXTENDS Fix, Json, TLC
CONSTANTS Third, MaxSteps
VARIABLES tree, prog, cats, n
C1(f, a) == CallN(f, a)
A(s) == Dot(Id("attr"), s)
CtxArgs == C1(Dot(Dot(Id("ctx"), "actions"), "args"), <<>>)
\* expressions around another one, with the category that has something to fix
Wraps == <<"div", "nonempty", "single", "cfg", "action", "newfile", "args", "list", "in", "kw", "dict", "native", "load", "plain", "comp", "neg">>
Wrap(w, x) ==
  CASE w = "div" -> N("bin", "/", <<N("num", "8", <<>>), x>>)
    [] w = "nonempty" -> C1(A("string_list"), <<Kw("non_empty", x)>>)
    [] w = "single" -> C1(A("label"), <<Kw("single_file", Id("y")), Kw("allow_files", x)>>)
    [] w = "cfg" -> C1(A("label"), <<Kw("default", x), Kw("cfg", S("data"))>>)
    [] w = "action" -> C1(Dot(Id("ctx"), "action"), <<Kw("executable", x)>>)
    [] w = "newfile" -> C1(Dot(Id("ctx"), "new_file"), <<Id("y"), x>>)
    [] w = "args" -> C1(Dot(CtxArgs, "add"), <<x, Kw("join_with", S(",")), Kw("before_each", x)>>)
    [] w = "list" -> C1(Id("list"), <<C1(Id("depset"), <<x>>)>>)
    [] w = "in" -> N("bin", "in", <<x, C1(Id("depset"), <<Id("y")>>)>>)
    [] w = "kw" -> C1(Id("getattr"), <<Kw("x", x), Kw("name", S("k"))>>)
    [] w = "dict" -> N("dict", "", <<N("kv", "", <<S("b"), x>>), N("kv", "", <<S("a"), N("num", "1", <<>>)>>)>>)
    [] w = "native" -> C1(Dot(Id("native"), "glob"), <<x>>)
    [] w = "load" -> C1(Dot(Id("native"), "cc_library"), <<Kw("name", x)>>)
    [] w = "comp" -> N("comp", "[", <<Id("z"), N("forc", "", <<Id("z"), N("bin", "+", <<C1(Id("depset"), <<>>), x>>)>>)>>)
    [] w = "neg" -> N("un", "not", <<x>>)
    [] OTHER -> C1(Id("foo"), <<x>>)
Leaves == {N("num", "2", <<>>), Id("PACKAGE_NAME"), Dot(Dot(Dot(Id("ctx"), "attr"), "d"), "output_group"), Id("True"), Id("CcInfo")}
CatOf == [div |-> "integer-division", nonempty |-> "attr-non-empty", single |-> "attr-single-file", cfg |-> "attr-cfg", action |-> "ctx-actions", newfile |-> "ctx-actions", args |-> "ctx-args",
          list |-> "depset-iteration", in |-> "depset-iteration", kw |-> "keyword-positional-params", dict |-> "unsorted-dict-items", native |-> "native-build", load |-> "native-cc-library", plain |-> "",
          comp |-> "depset-iteration", neg |-> ""]
LeafCat(x) == IF x.v = "PACKAGE_NAME" THEN "package-name" ELSE IF x.v = "output_group" THEN "output-group" ELSE IF x.v = "CcInfo" THEN "native-cc-info" ELSE ""
W == {Wraps[i] : i \in 1..Len(Wraps)}
Stmts(x) == {x, N("asg", "+=", <<Id("y"), N("list", "", <<x>>)>>), N("return", "", <<x>>)}
AFile(typ, q) == N("file", typ, q)
Def(q) == N("def", "f", <<N("params", "", <<Id("ctx"), Id("y")>>), N("none", "", <<>>), N("block", "", q)>>)
Progs(x) == {AFile(".bzl", <<Def(<<s>>)>>) : s \in Stmts(x)} \cup
            {AFile("BUILD", <<x>>), AFile(".bzl", <<N("load", "@rules_cc//cc:cc_library.bzl", <<N("sym", "cc_library", <<Id("cc_library")>>)>>), N("asg", "=", <<Id("v"), x>>)>>)}
\* the program is put together in the first step
Init == n = -1 /\ prog \in {Wrap(w, Id("hole")) : w \in W} /\ tree = prog /\ cats = {}
Build ==
  \E w \in W : prog = Wrap(w, Id("hole")) /\ n = -1 /\ n' = 0
   /\ \E w2 \in W, l \in Leaves, w3 \in Third :
       \E p \in Progs(Wrap(w, Wrap(w2, IF w3 = "" THEN l ELSE Wrap(w3, l)))) :
         /\ prog' = p /\ tree' = p
         /\ cats' = ({CatOf[w], CatOf[w2], IF w3 = "" THEN "" ELSE CatOf[w3], LeafCat(l), "list-append"} \ {""})
Possible == UNION {IF tree.v \in Types(c) THEN Steps(c, tree, E0) ELSE {} : c \in cats}
Fix1 == n >= 0 /\ n < MaxSteps /\ \E t \in Possible : tree' = t /\ n' = n + 1 /\ UNCHANGED <<prog, cats>>
Next == Build \/ Fix1
\* everything at once; loads are added by none of the single steps
RECURSIVE RwAll(_, _)
RwAll(q, t) == IF q = <<>> THEN t ELSE RwAll(Tail(q), IF t.v \in Types(q[1]) THEN Rw(q[1], t, E0) ELSE t)
Result == RwAll(SortedCats(SetToSeq(cats)), prog)
Confluent == n >= 0 /\ Possible = {} => tree = Result
Ends == n = MaxSteps => Possible = {}
\* what has been fixed has nothing to fix in it, whatever the order of the categories
Idem == n = 0 => LET f == Fixed(SetToSeq(cats), prog) IN Fixed(SetToSeq(cats), f) = f /\ \A c \in cats : FixCat(c, f) = f
Emit == n = 0 => PrintT("CASE " \o ToJson([typ |-> prog.v, tree |-> prog, lay |-> 0, cats |-> SetToSeq(cats)]))
====
