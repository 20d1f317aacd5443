---- MODULE Run ----
(* A run of buildozer over a workspace: what is written in a command file or on the command line, which
   files its targets denote, the list of commands every file gets, and the exit status.  The files of a
   workspace do not depend on each other: each one ends up as if only its own list had been carried out. *)
EXTENDS Buildozer
(* ---- what is written ---- *)
RECURSIVE Glue(_), TokensOf(_, _, _), TrimWS(_)
WS == {" ", "\t", "\r", "\n"}
TrimWS(s) == IF s = "" THEN "" ELSE IF Chr(s, 1) \in WS THEN TrimWS(From(s, 2)) ELSE IF Chr(s, Len(s)) \in WS THEN TrimWS(Upto(s, Len(s) - 1)) ELSE s
\* pieces between |: one that ends with a backslash goes on after the |
Glue(q) == IF Len(q) <= 1 THEN q
           ELSE IF HasSuffix(q[1], "\\") THEN Glue(<<Upto(q[1], Len(q[1]) - 1) \o "|" \o q[2]>> \o SubSeq(q, 3, Len(q)))
           ELSE <<q[1]>> \o Glue(Tail(q))
Fields(line) == Glue(Split(line, "|"))
\* words between spaces; cur is the word so far, in whether there is one
TokensOf(s, cur, in) ==
  IF s = "" THEN (IF in THEN <<cur>> ELSE <<>>)
  ELSE IF HasPrefix(s, "\\ ") THEN TokensOf(From(s, 3), cur \o " ", TRUE)
  ELSE IF Chr(s, 1) = " " THEN (IF in THEN <<cur>> ELSE <<>>) \o TokensOf(From(s, 2), "", FALSE)
  ELSE TokensOf(From(s, 2), cur \o Chr(s, 1), TRUE)
Tokens(s) == TokensOf(s, "", FALSE)
Commands == {"add", "remove", "move", "replace", "substitute", "set", "set_if_absent", "set_select", "rename", "remove_if_equal", "copy", "copy_no_overwrite",
             "dict_add", "dict_set", "dict_remove", "dict_list_add", "dict_replace_if_equal", "new", "delete", "new_load", "replace_load", "substitute_load",
             "comment", "remove_comment", "print", "print_comment", "format", "fix", "use_repo_add", "use_repo_remove"}
NoRe == [k |-> "", a |-> "", b |-> ""]
CmdOf(toks) == [c |-> toks[1], a |-> Tail(toks), re |-> NoRe, t |-> <<"", "", "">>]
\* the fields of a line: its commands and its targets
Entry(fields) == [cs |-> [i \in 1..Len(SelectSeq(fields, LAMBDA x : Tokens(x)[1] \in Commands)) |-> CmdOf(Tokens(SelectSeq(fields, LAMBDA x : Tokens(x)[1] \in Commands)[i]))],
                  ts |-> SelectSeq(fields, LAMBDA x : Tokens(x)[1] \notin Commands)]
Star(fields, labels) == Flat([i \in 1..Len(fields) |-> IF fields[i] = "*" THEN labels ELSE <<fields[i]>>])
LinesOf(text) == LET q == Split(text, "\n") IN SelectSeq([i \in 1..Len(q) |-> TrimWS(q[i])], LAMBDA x : x # "" /\ ~HasPrefix(x, "#"))
\* mode "args": the command line is one line; otherwise its labels stand for *
Entries(mode, text, args) == IF mode = "args" THEN <<Entry(args)>> ELSE LET q == LinesOf(text) IN [i \in 1..Len(q) |-> Entry(Star(Fields(q[i]), args))]

(* ---- the file a target denotes ---- *)
BuildNames == <<"BUILD.bazel", "BUILD", "BUCK">>
JoinP(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "/" \o b
\* the file of a package that counts, among files fs ([pkg, fname]); 0 if there is none
FileOf(fs, pkg) == LET I(n) == {i \in 1..Len(fs) : fs[i].pkg = pkg /\ fs[i].fname = n}
                       q == SelectSeq(BuildNames, LAMBDA n : I(n) # {})
                   IN IF q = <<>> THEN 0 ELSE Min2(I(q[1]))
Named(fs, path) == LET I == {i \in 1..Len(fs) : JoinP(fs[i].pkg, fs[i].fname) = path} IN IF I = {} THEN 0 ELSE Min2(I)
IsBuildName(n) == \E i \in 1..3 : BuildNames[i] = n
WholeFile(t) == LET q == SelectSeq(BuildNames, LAMBDA n : HasSuffix(t, "/" \o n)) IN IF q = <<>> THEN t ELSE Upto(t, Len(t) - Len(q[1]) - 1) \o ":__pkg__"
PkgOf(t, cwd) == IF HasPrefix(t, "//") THEN ParseAbs(t).pkg ELSE LET i == Index(t, ":") IN JoinP(cwd, IF i <= 1 THEN "" ELSE Upto(t, i - 1))
NameOf(t) == IF HasPrefix(t, "//") THEN ParseAbs(t).target ELSE From(t, Index(t, ":") + 1)
Below(pkg, dir) == dir = "" \/ pkg = dir \/ HasPrefix(pkg, dir \o "/")
\* [files, name]; files are numbers, 0 stands for one that is missing
Denotes(fs, target, cwd) ==
  LET t == WholeFile(target)
      p == PkgOf(t, cwd)
      n == Named(fs, p)
  IN [name |-> NameOf(t),
      files |-> IF p = "..." \/ HasSuffix(p, "/...") THEN {i \in 1..Len(fs) : Below(fs[i].pkg, IF p = "..." THEN "" ELSE Upto(p, Len(p) - 4)) /\ FileOf(fs, fs[i].pkg) = i}
                ELSE IF n # 0 THEN {IF IsBuildName(fs[n].fname) THEN FileOf(fs, fs[n].pkg) ELSE n}
                ELSE {FileOf(fs, p)}]
\* the commands for a file in their order
Queue(fs, es, cwd, k) ==
  Flat([i \in 1..Len(es) |-> Flat([j \in 1..Len(es[i].ts) |->
     LET d == Denotes(fs, es[i].ts[j], cwd) IN IF k \in d.files THEN <<[t |-> d.name, cs |-> es[i].cs]>> ELSE <<>>])])
Queries2 == {"print", "print_comment"}
OnlyQueries(q) == \A i \in 1..Len(q) : \A j \in 1..Len(q[i].cs) : q[i].cs[j].c \in Queries2
\* wants: what happens to each file that has commands: [f, ch, errs, out, vague]; queues: its commands; wrote: whether some file was changed
Status(wants, queues, missing, wrote, stdout) ==
  IF missing \/ \E i \in DOMAIN wants : wants[i].errs > 0 THEN 2
  ELSE IF wrote \/ stdout \/ \A i \in DOMAIN wants : OnlyQueries(queues[i]) THEN 0 ELSE 3
====
