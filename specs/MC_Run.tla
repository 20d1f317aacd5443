---- MODULE MC_Run ----
(* Design model of a run: the commands are collected into a table of files, the files are handed to workers in
   any order, every worker reads its file, edits it and writes it back in separate steps, and the results are
   collected in the order they arrive.  Explored: all interleavings of Workers workers for every invocation
   built from Lines.  Invariants: no two workers hold the same file; whatever the schedule, every file ends as
   its own commands alone would leave it, and the exit status is that of the files' results. *)
EXTENDS Run, Json, TLC, FiniteSets
CONSTANTS Workers, Lines, KeepGoing, Stdouts
VARIABLES inv, disk, todo, w, results, done
vars == <<inv, disk, todo, w, results, done>>
T(pkg, fname, rules) == [pkg |-> pkg, fname |-> fname, tree |-> File("BUILD", rules), raw |-> ""]
Rl(n) == Call("cc_library", <<Asg("name", S(n)), Asg("deps", Strs(<<"a">>))>>)
Files == <<T("", "BUILD", <<Rl("r1")>>), T("p", "BUILD", <<Rl("r1"), Rl("r2")>>), T("p", "BUILD.bazel", <<Rl("r1")>>), T("q", "BUILD", <<Rl("r2"), Call("genrule", <<>>)>>)>>
\* the lines of a command file, or (one only) the command line
CmdLines == {"add deps b|//p:r1", "add deps b|remove deps a|//q:r2|//p/BUILD:r1", "set x 1|//...:all", "print name|//p:all|//:r1", "delete|//q:%genrule", "rename deps srcs|//:r1|//p:r2", "remove deps a|p:r1|//gone:x", "move deps deps2 a|add deps2 c|...:*"}
Texts == UNION {[1..k -> CmdLines] : k \in 1..Lines}
Unlines(q) == Join(q, "\n")
Invs == {[text |-> Unlines(q), keep |-> kp, stdout |-> so] : q \in Texts, kp \in KeepGoing, so \in Stdouts}
Es(i) == Entries("file", i.text, <<>>)
Env(k, i) == [pkg |-> Files[k].pkg, dir |-> IF Files[k].pkg = "" THEN "ws" ELSE Files[k].pkg, keep |-> i.keep, eol |-> TRUE, types |-> <<>>, vars |-> FALSE, spans |-> <<>>, path |-> ""]
Q(i, k) == Queue(Files, Es(i), "", k)
Solo(i, k, q) == IF k = 0 THEN [f |-> None, ch |-> FALSE, errs |-> 1, out |-> <<>>, vague |-> FALSE] ELSE RunQ(Files[k].tree, q, Env(k, i))
\* an invocation with the commands of every file and what they do to it when nothing else happens
Known(v) == LET ks == {k \in 0..Len(Files) : Q(v, k) # <<>>}
                q == [k \in ks |-> Q(v, k)]
            IN [text |-> v.text, keep |-> v.keep, stdout |-> v.stdout, q |-> q, alone |-> [k \in ks |-> Solo(v, k, q[k])]]
KeysOf(i) == DOMAIN i.q
Alone(i, k) == i.alone[k]
Idle == [at |-> "idle", k |-> 0, f |-> None]
Init == /\ \E v \in Invs : inv = Known(v) /\ disk = [k \in 1..Len(Files) |-> Files[k].tree] /\ todo = KeysOf(inv)
        /\ w = [n \in 1..Workers |-> Idle] /\ results = <<>> /\ done = FALSE
Take(n) == w[n].at = "idle" /\ \E k \in todo : todo' = todo \ {k} /\ w' = [w EXCEPT ![n] = [at |-> "read", k |-> k, f |-> None]] /\ UNCHANGED <<inv, disk, results, done>>
Read(n) == w[n].at = "read" /\ w' = [w EXCEPT ![n].at = "edit", ![n].f = IF w[n].k = 0 THEN None ELSE disk[w[n].k]] /\ UNCHANGED <<inv, disk, todo, results, done>>
Edit(n) == /\ w[n].at = "edit"
           /\ LET k == w[n].k
                  r == IF k = 0 THEN Alone(inv, 0) ELSE RunQ(w[n].f, inv.q[k], Env(k, inv))
                  writes == r.ch /\ ~inv.stdout
              IN /\ disk' = IF writes THEN [disk EXCEPT ![k] = r.f] ELSE disk
                 /\ results' = Append(results, [k |-> k, errs |-> r.errs, modified |-> writes /\ r.f # w[n].f])
           /\ w' = [w EXCEPT ![n] = Idle] /\ UNCHANGED <<inv, todo, done>>
Finish == ~done /\ todo = {} /\ (\A n \in 1..Workers : w[n].at = "idle") /\ done' = TRUE /\ UNCHANGED <<inv, disk, todo, w, results>>
Next == Finish \/ \E n \in 1..Workers : Take(n) \/ Read(n) \/ Edit(n)

Exclusive == \A m, n \in 1..Workers : (m # n /\ w[m].at # "idle" /\ w[n].at # "idle") => w[m].k # w[n].k
Code == IF \E i \in 1..Len(results) : results[i].errs > 0 THEN 2
        ELSE IF (\E i \in 1..Len(results) : results[i].modified) \/ inv.stdout \/ \A k \in KeysOf(inv) : OnlyQueries(inv.q[k]) THEN 0 ELSE 3
Final == done => /\ \A k \in 1..Len(Files) : disk[k] = IF k \in KeysOf(inv) /\ ~inv.stdout THEN Alone(inv, k).f ELSE Files[k].tree
                 /\ Len(results) = Cardinality(KeysOf(inv))
                 /\ Code = Status(inv.alone, inv.q, FALSE, \E k \in KeysOf(inv) \ {0} : disk[k] # Files[k].tree, inv.stdout)
\* a failed file is left as it was
Atomic == \A k \in 1..Len(Files) : (k \in KeysOf(inv) /\ ~inv.keep /\ Alone(inv, k).errs > 0) => disk[k] = Files[k].tree
\* the shadowed BUILD file is never touched
Shadowed == disk[2] = Files[2].tree
Emit == (results = <<>> /\ todo = KeysOf(inv) /\ \A n \in 1..Workers : w[n].at = "idle") =>
          \A n \in {1, 2, 200} : PrintT("CASE " \o ToJson([files |-> Files, lay |-> 0, mode |-> "file", text |-> inv.text, args |-> <<>>, keep |-> inv.keep, stdout |-> inv.stdout, types |-> <<>>, cwd |-> "", root |-> FALSE, numio |-> n]))
====
