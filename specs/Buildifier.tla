---- MODULE Buildifier ----
(* A run of buildifier: where its settings come from, which combinations it refuses, and what it then reads,
   prints, reports, writes and returns.  Files are sequences of statements of which the specification knows
   how they are written, how they are formatted in a file of each type, what the linter says about them and
   what fixing makes of them. *)
EXTENDS Places, TLC

(* ---- statements ---- *)
RECURSIVE Cat(_)
Cat2(q) == Flat(q)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
SrcList(n, sorted) == "    " \o n \o " = [\n" \o (IF sorted THEN "        \"a\",\n        \"b\",\n" ELSE "        \"b\",\n        \"a\",\n") \o "    ],\n"
Lib(s, z) == "foo_library(\n    name = \"x\",\n" \o SrcList("srcs", s) \o SrcList("zz", z) \o ")"
Texts == [a |-> "f(a = 1)", b |-> "f(a=1)", c |-> "f(a = 1 / 2)", d |-> "f(a = 1 // 2)", e |-> "f(a=1/2)", p |-> "print(1)",
          g |-> "f(a = {\"b\": 1, \"a\": 2})", h |-> "f(a = {\"a\": 2, \"b\": 1})",
          G |-> "f(a = {\n    \"b\": 1,\n    \"a\": 2,\n})", H |-> "f(a = {\n    \"a\": 2,\n    \"b\": 1,\n})",
          k00 |-> Lib(FALSE, FALSE), k10 |-> Lib(TRUE, FALSE), k01 |-> Lib(FALSE, TRUE), k11 |-> Lib(TRUE, TRUE), bad |-> "x = ("]
Ids == DOMAIN Texts
LineCount(id) == Len(Split(Texts[id], "\n"))
Doc == "\"\"\"Doc.\"\"\"\n"
TextOf(q) == Doc \o Cat([i \in 1..Len(q) |-> "\n" \o Texts[q[i]] \o "\n"])
RECURSIVE LineOf(_, _)
LineOf(q, i) == IF i = 1 THEN 3 ELSE LineOf(q, i - 1) + LineCount(q[i - 1]) + 1
Valid(q) == ~\E i \in 1..Len(q) : q[i] = "bad"
Buildlike(ty) == ty \in {"build", "workspace", "module"}
\* a statement as the formatter writes it
FmtStmt(id, ty, s) ==
  LET sorts == Buildlike(ty) /\ "listsort" \notin s.disable
      zz == sorts /\ "foo_library.zz" \in s.allow
  IN CASE id = "b" -> "a" [] id = "e" -> "c"
       [] id = "g" -> IF Buildlike(ty) THEN "G" ELSE id [] id = "h" -> IF Buildlike(ty) THEN "H" ELSE id
       [] id = "k00" -> (IF sorts THEN (IF zz THEN "k11" ELSE "k10") ELSE id)
       [] id = "k10" -> (IF zz THEN "k11" ELSE id)
       [] id = "k01" -> (IF sorts THEN "k11" ELSE id)
       [] OTHER -> id
\* q: the statements of a file
Fmt(q, ty, s) == [i \in 1..Len(q) |-> FmtStmt(q[i], ty, s)]
Category(id) == CASE id \in {"c", "e"} -> "integer-division" [] id = "p" -> "print" [] id \in {"g", "G"} -> "unsorted-dict-items" [] OTHER -> ""
Fixable(cat) == cat # "print"
\* print is fine in files of which nothing is known
Found(id, ty, cats) == Category(id) # "" /\ Category(id) \in cats /\ ~(Category(id) = "print" /\ ty = "default")
FixStmt(id) == CASE id \in {"c", "e"} -> "d" [] id = "g" -> "h" [] id = "G" -> "H" [] OTHER -> id
Finds(q, ty, cats) ==
  LET I(i) == Found(q[i], ty, cats)
  IN Cat2([i \in 1..Len(q) |-> IF I(i) THEN <<[line |-> LineOf(q, i) + (IF q[i] = "G" THEN 2 ELSE 0), cat |-> Category(q[i]), fix |-> Fixable(Category(q[i]))]>> ELSE <<>>])
FixAll(q, ty, cats) == [i \in 1..Len(q) |-> IF Found(q[i], ty, cats) THEN FixStmt(q[i]) ELSE q[i]]

(* ---- settings ---- *)
Strings == {"type", "format", "mode", "lint", "warnings", "diff_command", "path"}
Bools == {"d", "r", "v", "multi_diff"}
Default == [n \in Strings \cup Bools |-> IF n = "type" THEN "auto" ELSE IF n \in Bools THEN "false" ELSE ""]
Last(q, n) == LET I == {i \in 1..Len(q) : q[i].n = n} IN IF I = {} THEN 0 ELSE Max2(I)
All(q, n) == {q[i].v : i \in {j \in 1..Len(q) : q[j].n = n}}
ListOf(q, n) == LET i == Last(q, n) IN IF i = 0 \/ q[i].v = "" THEN <<>> ELSE Split(q[i].v, "|")
\* the file that holds the configuration: [k |-> "none" | "example" | "file" | "missing", i]
Select(in, run) ==
  LET fl == Last(run.flags, "config")
      given == IF fl = 0 THEN "" ELSE run.flags[fl].v
      name == IF given # "" THEN given ELSE IF run.env.has THEN run.env.config ELSE ""
      cfg(p) == {i \in 1..Len(in.cfgs) : in.cfgs[i].path = p}
      at(d) == cfg(JoinPath(d, ".buildifier.json"))
      \* the nearest enclosing directory with a configuration file
      dirs == {d \in {Join(SubSeq(Split(in.cwd, "/"), 1, k), "/") : k \in 0..Len(Split(in.cwd, "/"))} : at(d) # {}}
  IN IF name = "off" THEN [k |-> "none", i |-> 0]
     ELSE IF name = "example" THEN [k |-> "example", i |-> 0]
     ELSE IF name # "" THEN (IF cfg(JoinPath(in.cwd, name)) = {} THEN [k |-> "missing", i |-> 0] ELSE [k |-> "file", i |-> Min2(cfg(JoinPath(in.cwd, name)))])
     ELSE IF given = "" /\ run.env.has THEN [k |-> "none", i |-> 0]
     ELSE IF dirs = {} THEN [k |-> "none", i |-> 0]
     ELSE [k |-> "file", i |-> Min2(at(CHOOSE d \in dirs : \A e \in dirs : Len(e) <= Len(d)))]
\* the flag's value if it is given, else the configuration's, else the default
Option(flags, cfg, n) == IF Last(flags, n) # 0 THEN flags[Last(flags, n)].v ELSE IF Last(cfg, n) # 0 THEN cfg[Last(cfg, n)].v ELSE Default[n]
Settings(flags, cfg) ==
  [o |-> [n \in Strings \cup Bools |-> Option(flags, cfg, n)],
   wlist |-> ListOf(cfg, "warningsList"),
   allow |-> All(flags, "allowsort") \cup {ListOf(cfg, "allowsort")[i] : i \in 1..Len(ListOf(cfg, "allowsort"))},
   disable |-> All(flags, "buildifier_disable") \cup {ListOf(cfg, "buildifier_disable")[i] : i \in 1..Len(ListOf(cfg, "buildifier_disable"))}]
\* categories: those the specification knows about
DefaultCats == {"integer-division", "print", "load"}
AllCats == DefaultCats \cup {"unsorted-dict-items"}
Sign(w) == IF w # "" /\ Chr(w, 1) \in {"+", "-"} THEN Chr(w, 1) ELSE ""
\* [ok, cats, unknown]
Warnings(s) ==
  LET parts == s.wlist \o (IF s.o["warnings"] # "" THEN <<s.o["warnings"]>> ELSE <<>>)
      w == Join(parts, ",")
      items == Split(w, ",")
      S(x) == {i \in 1..Len(items) : Sign(items[i]) = x}
      N(x) == {IF x = "" THEN items[i] ELSE From(items[i], 2) : i \in S(x)}
  IN IF w \in {"", "default"} THEN [ok |-> TRUE, cats |-> DefaultCats, unknown |-> FALSE]
     ELSE IF w = "all" THEN [ok |-> TRUE, cats |-> AllCats, unknown |-> FALSE]
     ELSE IF S("") # {} /\ (S("+") # {} \/ S("-") # {}) THEN [ok |-> FALSE, cats |-> {}, unknown |-> FALSE]
     ELSE IF S("") # {} THEN [ok |-> TRUE, cats |-> N(""), unknown |-> ~(N("") \subseteq AllCats)]
     ELSE [ok |-> TRUE, cats |-> (DefaultCats \ N("-")) \cup N("+"), unknown |-> ~(N("+") \subseteq AllCats)]
Mode(s) == IF s.o["d"] = "true" THEN "diff" ELSE IF s.o["mode"] = "" THEN "fix" ELSE s.o["mode"]
Lint(s) == IF s.o["lint"] = "" THEN "off" ELSE s.o["lint"]
\* combinations that are refused
Refused(s, nargs) ==
  \/ s.o["type"] \notin {"build", "bzl", "workspace", "default", "module", "auto"}
  \/ s.o["format"] \notin {"", "text", "json"}
  \/ s.o["format"] # "" /\ s.o["mode"] # "check"
  \/ s.o["d"] = "true" /\ s.o["mode"] # ""
  \/ Mode(s) \notin {"check", "diff", "fix", "print_if_changed"}
  \/ Lint(s) \notin {"off", "warn", "fix"}
  \/ Lint(s) = "fix" /\ Mode(s) # "fix"
  \/ nargs > 1 /\ (s.o["path"] # "" \/ Mode(s) = "print_if_changed")
  \/ ~Warnings(s).ok
  \/ Lint(s) # "off" /\ Warnings(s).unknown

(* ---- one file ---- *)
\* the diff command: [cmd, multi]; cmd "" is the usual diff
DiffOf(s, env) == IF s.o["diff_command"] # "" THEN [cmd |-> s.o["diff_command"], multi |-> s.o["multi_diff"] = "true"]
                  ELSE [cmd |-> env.diff, multi |-> env.multi = "1"]
FailsIfDifferent(cmd) == cmd \in {"", "vd1"}
NoDiag == [name |-> "", formatted |-> TRUE, valid |-> TRUE, warnings |-> <<>>]
\* err lines: [p, has]: how a line begins and what it holds
E(p, has) == [p |-> p, has |-> has]
Res(code, new, out, err, diag, pair) == [code |-> code, new |-> new, out |-> out, err |-> err, diag |-> diag, pair |-> pair]
None == <<"none">>
\* file: [path, kind, q, ro]; path is what it is called, "" for standard input
Process(file, s, df, stdin, many) ==
  LET shown == IF s.o["path"] # "" THEN s.o["path"] ELSE file.path
      name == IF shown = "" THEN "<stdin>" ELSE shown
      ty == IF s.o["type"] = "auto" THEN FileType(shown) ELSE s.o["type"]
      cats == Warnings(s).cats
      lint == Lint(s)
      mode == IF stdin /\ Mode(s) = "fix" THEN "pipe" ELSE Mode(s)
      q == file.q
      finds == IF lint = "warn" THEN Finds(q, ty, cats) ELSE <<>>
      fixed == IF lint = "fix" THEN FixAll(q, ty, cats) ELSE q
      new == Fmt(fixed, ty, s)
      left == Len(SelectSeq(Finds(q, ty, cats), LAMBDA f : ~f.fix))
      lerr == IF lint = "fix" /\ s.o["v"] = "true" THEN <<E(name \o ": applied fixes, " \o ToString(left) \o " warnings left", "")>> ELSE <<>>
      lcode == IF finds # <<>> THEN 4 ELSE 0
      diag(ok) == [name |-> name, formatted |-> ok, valid |-> TRUE, warnings |-> finds]
      same == new = q
      in == IF stdin THEN "-" ELSE file.path
  IN IF file.kind # "file" THEN Res(3, None, "", <<E("buildifier: ", file.path)>>, NoDiag, <<>>)
     ELSE IF ~Valid(q) THEN Res(1, None, "", <<E(name \o ":", "")>>, [name |-> name, formatted |-> FALSE, valid |-> FALSE, warnings |-> <<>>], <<>>)
     ELSE IF mode = "check" THEN Res(IF same THEN lcode ELSE 4, None, "", lerr, diag(same), <<>>)
     ELSE IF mode = "pipe" THEN Res(lcode, None, TextOf(new), lerr, diag(TRUE), <<>>)
     ELSE IF same THEN Res(lcode, None, "", lerr, diag(TRUE), <<>>)
     ELSE IF mode = "print_if_changed" THEN Res(lcode, None, TextOf(new), lerr, diag(TRUE), <<>>)
     ELSE IF mode = "fix" THEN
       (IF file.ro THEN Res(3, None, "", lerr \o <<E("buildifier: ", file.path)>>, diag(TRUE), <<>>)
        ELSE Res(lcode, new, "", lerr \o (IF s.o["v"] = "true" THEN <<E("fixed " \o name, "")>> ELSE <<>>), diag(TRUE), <<>>))
     ELSE \* diff
       LET head == IF many THEN <<E(name \o ":", "")>> ELSE <<>>
       IN IF df.multi THEN Res(lcode, None, "", lerr \o head, diag(TRUE), <<[old |-> in, new |-> new]>>)
          ELSE IF df.cmd = ":" THEN Res(lcode, None, "", lerr \o head, diag(TRUE), <<>>)
          ELSE Res(IF FailsIfDifferent(df.cmd) THEN 4 ELSE lcode, None, IF df.cmd = "" THEN "?" ELSE "D " \o in \o "\n" \o TextOf(new),
                   lerr \o head \o (IF FailsIfDifferent(df.cmd) THEN <<E("exit status 1", "")>> ELSE <<>>), diag(TRUE), <<>>)

(* ---- a run ---- *)
\* disk: the files in the order of a walk: [path, kind, q, ro]
FileAt(disk, p) == LET I == {i \in 1..Len(disk) : disk[i].path = p} IN IF I = {} THEN 0 ELSE Min2(I)
IsDirAt(disk, p) == \E i \in 1..Len(disk) : Under(disk[i].path, p) \/ (disk[i].path = p /\ disk[i].kind = "dir")
ExpandArg(disk, cwd, arg) ==
  LET p == IF arg = "." THEN cwd ELSE JoinPath(cwd, arg)
      I == {i \in 1..Len(disk) : disk[i].kind # "dir" /\ Under(disk[i].path, p) /\ Starlark(Base(disk[i].path)) /\ ~Skipped(Dir(disk[i].path))}
      rel(x) == IF arg = "." THEN (IF cwd = "" THEN x ELSE TrimPrefix(x, cwd \o "/")) ELSE arg \o "/" \o TrimPrefix(x, p \o "/")
  IN IF FileAt(disk, p) # 0 /\ disk[FileAt(disk, p)].kind = "file" THEN <<arg>>
     ELSE Cat2([i \in 1..Len(disk) |-> IF i \in I THEN <<rel(disk[i].path)>> ELSE <<>>])
Missing(disk, cwd, arg) == LET p == IF arg = "." THEN cwd ELSE JoinPath(cwd, arg) IN FileAt(disk, p) = 0 /\ ~IsDirAt(disk, p)
FromStdin(args) == args = <<>> \/ args = <<"-">>
Outcome(codes, out, err, diags, pairs, disk) == [codes |-> codes, out |-> out, err |-> err, diags |-> diags, pairs |-> pairs, disk |-> disk]
\* what a run does, file by file
FileFor(disk, cwd, arg) == LET i == FileAt(disk, JoinPath(cwd, arg)) IN
                           IF i = 0 THEN [path |-> arg, kind |-> "gone", q |-> <<>>, ro |-> FALSE] ELSE [disk[i] EXCEPT !.path = arg]
Write(disk, cwd, arg, new) == LET i == FileAt(disk, JoinPath(cwd, arg)) IN IF new = None THEN disk ELSE [disk EXCEPT ![i].q = new]
Merge(o, r, disk) == Outcome(o.codes \cup ({r.code} \ {0}), o.out \o r.out, o.err \o r.err, o.diags \o (IF r.diag = NoDiag THEN <<>> ELSE <<r.diag>>), o.pairs \o r.pair, disk)
RECURSIVE RunFiles(_, _, _, _, _, _)
RunFiles(o, files, i, cwd, s, df) ==
  IF i > Len(files) THEN o
  ELSE LET r == Process(FileFor(o.disk, cwd, files[i]), s, df, FALSE, Len(files) > 1)
       IN RunFiles(Merge(o, r, Write(o.disk, cwd, files[i], r.new)), files, i + 1, cwd, s, df)
\* kind: "version", "help", "example", "usage" (refused), "stat" (a place that is missing), "run"
Plain(k, disk) == [kind |-> k, o |-> Outcome(CASE k = "usage" -> {2} [] k = "stat" -> {3} [] OTHER -> {}, "", <<>>, <<>>, <<>>, disk), s |-> Settings(<<>>, <<>>), df |-> [cmd |-> "", multi |-> FALSE]]
Malformed(flags) == \E i \in 1..Len(flags) : flags[i].n = "nosuchflag" \/ (flags[i].n \in Bools \cup {"help", "version"} /\ flags[i].v \notin {"true", "false"})
Run(in, disk, run) ==
  LET sel == Select(in, run)
      on(n) == Last(run.flags, n) # 0 /\ run.flags[Last(run.flags, n)].v = "true"
      cfg == IF sel.k = "file" THEN in.cfgs[sel.i].set ELSE <<>>
      s == Settings(run.flags, cfg)
      df == DiffOf(s, run.env)
      stdin == FromStdin(run.args)
      files == IF s.o["r"] = "true" THEN Cat2([i \in 1..Len(run.args) |-> ExpandArg(disk, in.cwd, run.args[i])]) ELSE run.args
      start == Outcome({}, "", <<>>, <<>>, <<>>, disk)
      old == s.o["diff_command"] = "" /\ Mode(s) = "diff" /\ (run.env.diff # "" \/ run.env.multi # "")
      begin == [start EXCEPT !.err = IF old THEN <<E("buildifier: selecting diff program with", "deprecated")>> ELSE <<>>]
  IN IF Malformed(run.flags) THEN Plain("usage", disk)
     ELSE IF on("help") THEN Plain("help", disk)
     ELSE IF on("version") THEN Plain("version", disk)
     ELSE IF sel.k = "example" THEN Plain("example", disk)
     ELSE IF sel.k = "missing" \/ (sel.k = "file" /\ in.cfgs[sel.i].broken) THEN Plain("usage", disk)
     ELSE IF Refused(s, Len(run.args)) THEN Plain("usage", disk)
     ELSE IF ~stdin /\ s.o["r"] = "true" /\ \E i \in 1..Len(run.args) : Missing(disk, in.cwd, run.args[i]) THEN Plain("stat", disk)
     ELSE [kind |-> "run", s |-> s, df |-> df,
           o |-> IF stdin THEN LET r == Process([path |-> "", kind |-> "file", q |-> run.stdin, ro |-> FALSE], s, df, TRUE, FALSE) IN Merge(begin, r, disk)
                 ELSE RunFiles(begin, files, 1, in.cwd, s, df)]
\* the lines about the findings, which come last
DiagLines(diags) == Cat2([i \in 1..Len(diags) |-> [j \in 1..Len(diags[i].warnings) |-> E(diags[i].name \o ":" \o ToString(diags[i].warnings[j].line) \o ": " \o diags[i].warnings[j].cat \o ": ", "")]
                            \o (IF diags[i].formatted THEN <<>> ELSE <<E(diags[i].name \o " # reformat", "")>>)])
PairsOut(pairs) == IF pairs = <<>> THEN "" ELSE Cat([i \in 1..Len(pairs) |-> "M\nD " \o pairs[i].old \o "\n" \o TextOf(pairs[i].new)])
Success(diags) == \A i \in 1..Len(diags) : diags[i].formatted /\ diags[i].warnings = <<>>
\* statuses a run may end with
Statuses(w) ==
  IF w.kind \in {"usage", "stat"} THEN w.o.codes
  ELSE IF w.kind # "run" THEN {0}
  ELSE IF w.df.multi /\ w.o.pairs # <<>> /\ FailsIfDifferent(w.df.cmd) THEN {2, 4}
  ELSE IF w.s.o["format"] # "" THEN {0}
  ELSE IF w.o.codes = {} THEN {0} ELSE w.o.codes
====
