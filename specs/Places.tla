---- MODULE Places ----
(* What a file is, by its place and name: its type, whether a recursive run looks at it, the workspace and
   the package it belongs to. *)
EXTENDS Str, Integers, Sequences, FiniteSets
Base(p) == From(p, LastIndex(p, "/") + 1)
Dir(p) == LET i == LastIndex(p, "/") IN IF i = 0 THEN "" ELSE Upto(p, i - 1)
Ext(b) == LET i == LastIndex(b, ".") IN IF i = 0 THEN "" ELSE From(b, i)
\* the type of a file: any spelling of upper and lower case, an extension .oss does not count
FileType(path) ==
  LET b == TrimSuffix(Lower(Base(path)), ".oss")
      x == Ext(b)
      stem == TrimSuffix(b, x)
  IN IF path = "" THEN "default"
     ELSE IF b = "module.bazel" \/ HasSuffix(b, ".module.bazel") THEN "module"
     ELSE IF x = ".bzl" THEN "bzl"
     ELSE IF x = ".sky" THEN "default"
     ELSE IF x = ".build" \/ stem = "build" \/ HasPrefix(stem, "build.") THEN "build"
     ELSE IF x = ".workspace" \/ stem = "workspace" \/ HasPrefix(stem, "workspace.") THEN "workspace"
     ELSE "default"
\* files a recursive run looks at
Starlark(b) ==
  \/ Ext(b) \in {".bzl", ".sky", ".star"}
  \/ Ext(b) \in {".bazel", ".oss"} /\ \E p \in {"BUILD.", "WORKSPACE.", "MODULE."} : HasPrefix(b, p)
  \/ b \in {"BUILD", "WORKSPACE"}
\* directories of version control are skipped
Skipped(dir) == \E i \in 1..Len(Split(dir, "/")) : Split(dir, "/")[i] = ".git"
Under(p, dir) == dir = "" \/ HasPrefix(p, dir \o "/")
JoinPath(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "/" \o b
\* ---- a tree of files ----
\* E: the entries [p, k, to, x], each directory before what it holds and the names of one directory in order;
\* k is "dir", "file" or "link" (to: where to, from the top), x whether a file can be executed.
At(E, p) == LET I == {i \in 1..Len(E) : E[i].p = p} IN IF I = {} THEN 0 ELSE Min2(I)
RECURSIVE Foll(_, _, _, _)
Foll(E, at, todo, n) ==
  IF todo = <<>> THEN at
  ELSE IF n = 0 THEN "!"
  ELSE LET q == JoinPath(at, Head(todo))
           i == At(E, q)
       IN IF i = 0 THEN "!"
          ELSE IF E[i].k = "link" THEN Foll(E, "", Split(E[i].to, "/") \o Tail(todo), n - 1)
          ELSE IF E[i].k = "file" /\ Tail(todo) # <<>> THEN "!"
          ELSE Foll(E, q, Tail(todo), n)
\* where a path leads to, "!" if nowhere
Real(E, p) == IF p = "" THEN "" ELSE Foll(E, "", Split(p, "/"), 9)
KindAt(E, p) == LET q == Real(E, p) IN IF q = "!" THEN "none" ELSE IF q = "" THEN "dir" ELSE E[At(E, q)].k
\* a path as it is written, from the directory it is written in
RECURSIVE CleanTo(_, _)
CleanTo(q, at) ==
  IF q = <<>> THEN at
  ELSE IF Head(q) \in {"", "."} THEN CleanTo(Tail(q), at)
  ELSE IF Head(q) = ".." THEN CleanTo(Tail(q), Dir(at))
  ELSE CleanTo(Tail(q), JoinPath(at, Head(q)))
PathFrom(cwd, s) == IF HasPrefix(s, "/") THEN CleanTo(Split(s, "/"), "") ELSE CleanTo(Split(s, "/"), cwd)
\* ---- workspaces and packages ----
RootMarks == {"WORKSPACE", "WORKSPACE.bazel", "MODULE.bazel", "REPO.bazel", ".buckconfig", "pants"}
PackageMarks == {"BUILD", "BUILD.bazel"}
Marked(E, d, marks) == \E m \in marks : LET p == JoinPath(d, m) IN KindAt(E, p) = "file" /\ (m # "pants" \/ E[At(E, Real(E, p))].x)
\* the directories around d, d first; the parent is that of the path
RECURSIVE Ups(_)
Ups(d) == IF d = "" THEN <<"">> ELSE <<d>> \o Ups(Dir(d))
\* the nearest one with a mark, "!" if there is none
Nearest(E, d, marks) ==
  LET u == Ups(d)
      I == {i \in 1..Len(u) : Marked(E, u[i], marks)}
  IN IF I = {} THEN "!" ELSE u[Min2(I)]
Rel(base, p) == IF base = "" THEN p ELSE IF p = base THEN "" ELSE TrimPrefix(p, base \o "/")
Root(E, d) == Nearest(E, d, RootMarks)
\* a file's workspace, its package and its path in the package; a package is not outside of its workspace
Place(E, f) ==
  LET w == Root(E, Dir(f))
      b == Nearest(E, Dir(f), PackageMarks)
      pk == IF b = "!" \/ Len(b) < Len(w) THEN w ELSE b
  IN IF w = "!" THEN <<"!", "", "">> ELSE <<w, Rel(w, pk), Rel(pk, f)>>
\* ---- recursive runs ----
RECURSIVE SelectIdx(_, _, _)
\* the Starlark files below a directory, under the names they have from there
Below(E, d) ==
  LET r == Real(E, d)
      sub(i) == Rel(r, E[i].p)
      ok(i) == Under(E[i].p, r) /\ KindAt(E, E[i].p) = "file" /\ Starlark(Base(E[i].p)) /\ ~Skipped(Dir(sub(i)))
  IN SelectIdx(E, [i \in 1..Len(E) |-> IF ok(i) THEN JoinPath(d, sub(i)) ELSE ""], 1)
SelectIdx(E, q, i) == IF i > Len(q) THEN <<>> ELSE (IF q[i] = "" THEN <<>> ELSE <<q[i]>>) \o SelectIdx(E, q, i + 1)
RECURSIVE Expand(_, _)
\* the files that arguments stand for, "!" if one stands for nothing
Expand(E, args) ==
  IF args = <<>> THEN <<>>
  ELSE LET k == KindAt(E, Head(args))
           rest == Expand(E, Tail(args))
       IN IF k = "none" \/ rest = <<"!">> THEN <<"!">>
          ELSE (IF k = "file" THEN <<Head(args)>> ELSE Below(E, Head(args))) \o rest
\* ---- files that other files load ----
\* the label as it is written in a file of a package
LabelPath(l, pkg) ==
  IF HasPrefix(l, "//") THEN LET i == Index(l, ":") IN IF i = 0 THEN JoinPath(From(l, 3), Base(l)) ELSE JoinPath(SubSeq(l, 3, i - 1), From(l, i + 1))
  ELSE JoinPath(pkg, TrimPrefix(l, ":"))
\* whether what a file loads is there
LoadFound(E, f) ==
  LET w == Place(E, f)
      i == At(E, Real(E, f))
      to == JoinPath(w[1], LabelPath(E[i].l, w[2]))
  IN w[1] # "!" /\ E[i].l # "" /\ KindAt(E, to) = "file" /\ E[At(E, Real(E, to))].d
\* ---- build files of repositories named in a WORKSPACE ----
RepoKinds == {"git_repository", "new_local_repository", "new_git_repository", "new_http_archive"}
RECURSIVE RepoFile(_)
RepoFile(s) == LET i == Index(s, ":") IN IF i = 0 THEN s ELSE RepoFile(Upto(s, i - 1) \o "/" \o From(s, i + 1))
RepoFiles(root, rules) == {<<rules[i].name, CleanTo(Split(RepoFile(rules[i].file), "/"), root)>> : i \in {i \in 1..Len(rules) : rules[i].kind \in RepoKinds /\ rules[i].file # ""}}
====
