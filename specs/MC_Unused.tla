---- MODULE MC_Unused ----
(* Design model of finding unused dependencies: a rule is written (each library of a small world is a dependency
   of it or not, under some spelling and with or without a note), compiled (each direct dependency is used in
   some way or not; a library may consist of several jars), outputs get lost or damaged, and the tool reads what
   there is: jar by jar into a table, then the entries of the dependency report, each of which takes its label
   off, then the dependencies as written.
   Invariants: what it proposes is what Unused.tla says; nothing that was used explicitly is proposed whatever
   was lost; if nothing was lost, everything unused is; every dependency is proposed at most once, and a noted
   one is moved.  Every behaviour is emitted as a case. *)
EXTENDS Unused, Json, TLC
CONSTANTS Homes, Uses, MaxFaults, Notes
VARIABLES home, w, uses, jars, params, jdeps, table, todo, left, out, pc
vars == <<home, w, uses, jars, params, jdeps, table, todo, left, out, pc>>
\* a library, its jars and how it may be written in a package
World == <<[l |-> "//p:p", man |-> "@@//p:p", jars |-> <<"bazel-out/k/lib1.jar">>],
           [l |-> "//p:a", man |-> "//p:a", jars |-> <<"bazel-out/k/lib2.jar", "bazel-out/k/lib2h.jar">>],
           [l |-> "@r//p:a", man |-> "@@r//p:a", jars |-> <<"bazel-out/k/lib3.jar">>]>>
Target(h) == CASE h = "main" -> "//p:t" [] h = "sub" -> "//p/q:t" [] OTHER -> "@r//p:t"
Spell(h, i) ==
  CASE h = "main" -> <<{"//p", ":p", "p"}, {":a", "//p:a"}, {"@r//p:a", "@@r//p:a"}>>[i]
    [] h = "sub" -> <<{"//p", "//p:p"}, {"//p:a"}, {"@r//p:a"}>>[i]
    [] OTHER -> <<{"@//p", "@//p:p"}, {"@//p:a", "@@//p:a"}, {":a", "a", "//p:a", "@r//p:a"}>>[i]
Lib == 1..Len(World)
Init == /\ home \in Homes /\ w = <<>> /\ uses = <<>> /\ jars = <<>> /\ params = "ok" /\ jdeps = "ok" /\ table = <<>> /\ todo = <<>> /\ left = {} /\ out = <<>> /\ pc = "write"
\* the BUILD file, library by library
Write == /\ pc = "write" /\ Len(w) < Len(World)
         /\ \/ w' = Append(w, [s |-> "", note |-> ""])
            \/ \E s \in Spell(home, Len(w) + 1), n \in Notes : w' = Append(w, [s |-> s, note |-> n])
         /\ UNCHANGED <<home, uses, jars, params, jdeps, table, todo, left, out, pc>>
\* the compiler reports jar by jar
AllJars == Flat([i \in Lib |-> World[i].jars])
Compile == /\ Len(w) = Len(World) /\ pc \in {"write", "compile"} /\ Len(uses) < Len(AllJars) /\ pc' = "compile"
           /\ \E u \in Uses : uses' = Append(uses, u)
           /\ UNCHANGED <<home, w, jars, params, jdeps, table, todo, left, out>>
Lose == /\ pc = "compile" /\ Len(uses) = Len(AllJars) /\ pc' = "lost"
        /\ \E f \in {"none", "params", "jdeps", "bad"} \cup (IF MaxFaults > 0 THEN {AllJars[i] : i \in 1..Len(AllJars)} ELSE {}) :
             /\ params' = (IF f = "params" THEN "missing" ELSE "ok") /\ jdeps' = (CASE f = "jdeps" -> "missing" [] f = "bad" -> "bad" [] OTHER -> "ok")
             /\ jars' = Flat([i \in Lib |-> [j \in 1..Len(World[i].jars) |-> [p |-> World[i].jars[j], l |-> World[i].man,
                          st |-> IF World[i].jars[j] = f THEN "missing" ELSE "ok", wrap |-> i, nl |-> "\r\n"]]])
        /\ UNCHANGED <<home, w, uses, table, todo, left, out>>
\* the direct dependencies: the jars of what is written
DirectJars == Flat([i \in Lib |-> IF w[i].s = "" THEN <<>> ELSE World[i].jars])
Start == /\ pc = "lost" /\ pc' = "read" /\ todo' = (IF params = "ok" THEN DirectJars ELSE <<>>)
         /\ UNCHANGED <<home, w, uses, jars, params, jdeps, table, left, out>>
JarOf(p) == First(jars, LAMBDA j : j.p = p)[1]
Read == /\ pc = "read" /\ todo # <<>> /\ todo' = Tail(todo)
        /\ table' = (IF JarOf(Head(todo)).st = "ok" THEN Append(table, [p |-> Head(todo), l |-> Canonical(JarOf(Head(todo)).l)]) ELSE table)
        /\ UNCHANGED <<home, w, uses, jars, params, jdeps, left, out, pc>>
Report == /\ pc = "read" /\ todo = <<>> /\ pc' = "strike"
          /\ left' = (IF jdeps = "ok" THEN {table[i].l : i \in 1..Len(table)} ELSE {})
          /\ todo' = SelectSeq([i \in 1..Len(AllJars) |-> [p |-> AllJars[i], k |-> uses[i]]], LAMBDA u : u.k # "")
          /\ UNCHANGED <<home, w, uses, jars, params, jdeps, table, out>>
Strike == /\ pc = "strike" /\ todo # <<>> /\ todo' = Tail(todo)
          /\ left' = (IF Head(todo).k = "EXPLICIT" THEN left \ {table[i].l : i \in {i \in 1..Len(table) : table[i].p = Head(todo).p}} ELSE left)
          /\ UNCHANGED <<home, w, uses, jars, params, jdeps, table, out, pc>>
L0 == ParseAbs(Target(home))
Written == SelectSeq([i \in Lib |-> NC("str", w[i].s, <<>>, IF w[i].note = "" THEN <<>> ELSE <<w[i].note>>)], LAMBDA d : d.v # "")
Propose == /\ pc = "strike" /\ todo = <<>> /\ pc' = "done"
           /\ out' = SelectSeq(Written, LAMBDA d : Means(d.v, L0.repo, L0.pkg) \in left)
           /\ UNCHANGED <<home, w, uses, jars, params, jdeps, table, todo, left>>
Next == Write \/ Compile \/ Lose \/ Start \/ Read \/ Report \/ Strike \/ Propose
TheCase ==
  [how |-> "run", cquery |-> FALSE, tool |-> "bazel", pats |-> <<Target(home)>>, extra |-> <<>>, query |-> <<Target(home)>>, lay |-> 0, jars |-> jars,
   rules |-> <<[label |-> Target(home), lib |-> home = "main", params |-> params, jars |-> DirectJars, jdeps |-> jdeps,
                used |-> SelectSeq([i \in 1..Len(AllJars) |-> [p |-> AllJars[i], k |-> uses[i]]], LAMBDA u : u.k # "")]>>,
   files |-> <<[repo |-> L0.repo, pkg |-> L0.pkg, name |-> "BUILD", bad |-> FALSE,
                tree |-> File("BUILD", <<Call("java_library", <<Asg("name", S("t")), Asg("deps", L(Written))>>)>>)]>>]
Finished == pc = "done"
Agrees == Finished => out = Proposed(TheCase, Target(home))
Explicit(i) == \E j \in 1..Len(AllJars) : uses[j] = "EXPLICIT" /\ \E k \in 1..Len(World[i].jars) : World[i].jars[k] = AllJars[j]
Lost(i) == \E k \in 1..Len(World[i].jars) : JarOf(World[i].jars[k]).st # "ok"
\* nothing that is used is proposed, unless the jar of it that is used was lost and another one was not
Safe == Finished => \A i \in Lib : (w[i].s # "" /\ Explicit(i) /\ ~Lost(i)) => ~\E k \in 1..Len(out) : out[k].v = w[i].s
Whole == Finished /\ params = "ok" /\ jdeps = "ok" /\ (\A i \in Lib : ~Lost(i)) => \A i \in Lib : (w[i].s # "" /\ ~Explicit(i)) => \E k \in 1..Len(out) : out[k].v = w[i].s
Once == Finished => \A i, j \in 1..Len(out) : i # j => out[i].v # out[j].v
Quiet == Finished /\ (params # "ok" \/ jdeps # "ok") => out = <<>>
Emit == Finished => PrintT("CASE " \o ToJson(TheCase))
====
