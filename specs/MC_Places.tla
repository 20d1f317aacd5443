---- MODULE MC_Places ----
(* Design model of going through a tree of files: a walk with a stack (a recursive run) and a climb from a
   directory to the top (looking for the workspace and the package).  Explored: every tree over a set of places,
   each with or without an entry of several kinds.  Invariants: the walk sees every Starlark file that it should
   exactly once and in order, nothing in a directory of version control, and a climb stops at the nearest mark;
   a package is never outside of its workspace; what is said about a file through a link that leads to its
   directory's twin names the link. *)
EXTENDS Places, Json, TLC
CONSTANTS Opts, Start
VARIABLES E, n, todo, got, up, pc
vars == <<E, n, todo, got, up, pc>>
En(p, k) == [p |-> p, k |-> k, to |-> "", x |-> FALSE, l |-> "", d |-> FALSE]
Fl(p, x, l, d) == [p |-> p, k |-> "file", to |-> "", x |-> x, l |-> l, d |-> d]
Ln(p, to) == [p |-> p, k |-> "link", to |-> to, x |-> FALSE, l |-> "", d |-> FALSE]
\* the places in order: what may be there
Universe == <<
  <<En(".git", "dir")>>,
  <<Fl(".git/BUILD", FALSE, "", FALSE)>>,
  <<Fl("BUILD", FALSE, "//a:x.bzl", FALSE), Fl("BUILD.bazel", FALSE, ":a/x.bzl", FALSE)>>,
  <<Fl("WORKSPACE", FALSE, "", FALSE), Fl("WORKSPACE.bazel", FALSE, "", FALSE), Fl(".buckconfig", FALSE, "", FALSE)>>,
  <<En("a", "dir")>>,
  <<Fl("a/BUILD", FALSE, ":x.bzl", FALSE), En("a/BUILD", "dir"), Ln("a/BUILD", "z.txt")>>,
  <<Fl("a/MODULE.bazel", FALSE, "", FALSE), En("a/MODULE.bazel", "dir"), Ln("a/MODULE.bazel", "z.txt")>>,
  <<En("a/b", "dir")>>,
  <<Fl("a/b/BUILD.bazel", FALSE, "//b:y.bzl", FALSE), Fl("a/b/BUILD.in", FALSE, "", FALSE)>>,
  <<Fl("a/b/pants", TRUE, "", FALSE), Fl("a/b/pants", FALSE, "", FALSE)>>,
  <<Fl("a/b/y.bzl", FALSE, "//a:x.bzl", TRUE)>>,
  <<Fl("a/x.bzl", FALSE, "//:b/y.bzl", TRUE)>>,
  <<Ln("ln", "a"), Ln("ln", "a/b")>>,
  <<Fl("z.txt", FALSE, "", FALSE)>> >>
IsDir(e, p) == p = "" \/ \E i \in 1..Len(e) : e[i].p = p /\ e[i].k = "dir"
Whole(e) == \A i \in 1..Len(e) : e[i].k # "link" \/ At(e, e[i].to) # 0
\* the names in a directory, in order
Kids(d) == SelectSeq(E, LAMBDA e : Dir(e.p) = d)
Init == E = <<>> /\ n = 1 /\ todo = <<>> /\ got = <<>> /\ up = <<>> /\ pc = "grow"
\* the tree, place by place
Grow == /\ pc = "grow" /\ n <= Len(Universe) /\ n' = n + 1
        /\ \/ 0 \in Opts[n] /\ E' = E
           \/ \E i \in Opts[n] \ {0} : i <= Len(Universe[n]) /\ IsDir(E, Dir(Universe[n][i].p)) /\ E' = Append(E, Universe[n][i])
        /\ UNCHANGED <<todo, got, up, pc>>
Go == /\ pc = "grow" /\ n > Len(Universe) /\ Whole(E) /\ pc' = "walk"
      /\ \E s \in Start : KindAt(E, s) = "dir" /\ todo' = <<s>>
      /\ UNCHANGED <<E, n, got, up>>
\* one name at a time: a directory is replaced by what it holds
Walk == /\ pc = "walk" /\ todo # <<>>
        /\ LET p == Head(todo)
               first == up = <<>>
               dir == IF first THEN KindAt(E, p) = "dir" ELSE IsDir(E, Real(E, Dir(p)) \o (IF Real(E, Dir(p)) = "" THEN "" ELSE "/") \o Base(p))
               kids == Kids(Real(E, p))
           IN /\ todo' = (IF dir /\ Base(p) # ".git" THEN [i \in 1..Len(kids) |-> JoinPath(p, Base(kids[i].p))] ELSE <<>>) \o Tail(todo)
              /\ got' = IF ~dir /\ Starlark(Base(p)) THEN Append(got, p) ELSE got
              /\ up' = IF first THEN <<p>> ELSE up
        /\ UNCHANGED <<E, n, pc>>
Turn == pc = "walk" /\ todo = <<>> /\ pc' = "climb" /\ todo' = up /\ UNCHANGED <<E, n, got, up>>
\* one directory at a time
Climb == pc = "climb" /\ LET d == todo[1] IN
           IF Marked(E, d, RootMarks) THEN pc' = "found" /\ UNCHANGED <<E, n, todo, got, up>>
           ELSE IF d = "" THEN pc' = "lost" /\ UNCHANGED <<E, n, todo, got, up>>
           ELSE todo' = <<Dir(d)>> /\ UNCHANGED <<E, n, got, up, pc>>
Next == Grow \/ Go \/ Walk \/ Turn \/ Climb
WalkSeesAll == pc = "climb" => got = Below(E, up[1])
NoneTwice == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
NoGit == \A i \in 1..Len(got) : ~Skipped(Dir(got[i]))
ClimbFinds == (pc = "found" => Root(E, up[1]) = todo[1]) /\ (pc = "lost" => Root(E, up[1]) = "!")
Inside == pc = "climb" => \A i \in 1..Len(got) : LET w == Place(E, got[i]) IN
            w[1] = "!" \/ (JoinPath(JoinPath(w[1], w[2]), w[3]) = got[i] /\ ~\E j \in 1..Len(Ups(Dir(got[i]))) : LET d == Ups(Dir(got[i]))[j] IN Marked(E, d, PackageMarks) /\ Len(d) > Len(JoinPath(w[1], w[2])))
\* what a path leads to does not depend on where it is written
Spelling == pc = "climb" => \A i \in 1..Len(E) : \A c \in {"", "a", "a/b"} : PathFrom(c, "/" \o E[i].p) = E[i].p /\ PathFrom(c, (IF c = "" THEN "./" ELSE IF c = "a" THEN "../" ELSE "../../") \o E[i].p) = E[i].p
Ask(op, cwd, args) == [op |-> op, cwd |-> cwd, args |-> args, rules |-> <<>>]
Names == <<"BUILD", "BUILD.bazel", "build.foo", "x/BUILD", "foo.build", "WORKSPACE", "workspace.BAZEL", "a.workspace", "MODULE.bazel", "x.module.bazel", "module", "Module.Bazel.oss", "lib.bzl", "lib.BZL.OSS", "BUILD.bzl", "BUILD.sky", "rebuild", "buildx.bazel", "x.star", "x.oss">>
Abs(p) == "/" \o p
Asks == LET s == up[1]
            fs == [i \in 1..Len(got) |-> Ask("split", "", <<Abs(got[i])>>)]
        IN <<Ask("type", "", Names), Ask("expand", "", <<IF s = "" THEN "." ELSE s>>), Ask("run", "", <<IF s = "" THEN "." ELSE s>>)>>
           \o (IF s = "" THEN <<Ask("root", "", <<"">>)>> ELSE <<Ask("root", "", <<Abs(s)>>)>>) \o fs
           \o (IF got = <<>> THEN <<>> ELSE <<Ask("stdin", "", <<got[Len(got)]>>), Ask("expand", "", <<got[1], IF s = "" THEN "." ELSE "./" \o s>>), Ask("regular", "", <<Abs(got[1])>>)>>)
Emit == pc = "climb" /\ todo = up => PrintT("CASE " \o ToJson([ents |-> E, asks |-> Asks]))
All == <<{1}, {1}, {0, 1}, {0, 1}, {1}, {0, 1, 2}, {0, 1, 3}, {1}, {0, 1}, {0, 1, 2}, {1}, {0, 1}, {1}, {1}>>
Big == <<{1}, {1}, {0, 1, 2}, {0, 1, 3}, {1}, {0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1}, {0, 1, 2}, {0, 1, 2}, {0, 1}, {0, 1}, {0, 1, 2}, {1}>>
Starts == {"", "a", "ln", "a/b"}
====
