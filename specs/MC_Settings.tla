---- MODULE MC_Settings ----
(* Design model of how buildifier gets its settings: it parses the flags, looks for the configuration, reads it
   over what the flags have set, and parses the flags again over that.  Explored: every combination of the
   flags, the selected configuration and the places of configuration files.  Invariants: a flag wins over the
   configuration and the configuration over the default, for every single option; only the selected
   configuration counts. *)
EXTENDS Buildifier, Json
CONSTANTS FlagSets, CfgSets, Names, Envs
VARIABLES in, run, c, pc
vars == <<in, run, c, pc>>
KV(n, v) == [n |-> n, v |-> v, f |-> 0]
Paths == <<".buildifier.json", "a/.buildifier.json", "a/cfg.json">>
Start == [o |-> Default, wlist |-> <<>>, allow |-> <<>>, disable |-> <<>>]
\* sets the options that are given; lists grow
Assign(q, x) == [o |-> [n \in DOMAIN x.o |-> IF Last(q, n) # 0 THEN q[Last(q, n)].v ELSE x.o[n]],
                 wlist |-> x.wlist,
                 allow |-> x.allow \o Cat2([i \in 1..Len(q) |-> IF q[i].n = "allowsort" THEN <<q[i].v>> ELSE <<>>]),
                 disable |-> x.disable \o Cat2([i \in 1..Len(q) |-> IF q[i].n = "buildifier_disable" THEN <<q[i].v>> ELSE <<>>])]
\* sets the options a file holds; lists are replaced
Load(q, x) == [o |-> [n \in DOMAIN x.o |-> IF Last(q, n) # 0 THEN q[Last(q, n)].v ELSE x.o[n]],
               wlist |-> IF Last(q, "warningsList") # 0 THEN ListOf(q, "warningsList") ELSE x.wlist,
               allow |-> IF Last(q, "allowsort") # 0 THEN ListOf(q, "allowsort") ELSE x.allow,
               disable |-> IF Last(q, "buildifier_disable") # 0 THEN ListOf(q, "buildifier_disable") ELSE x.disable]
Files == <<[path |-> "a/BUILD", kind |-> "file", q |-> <<"b", "e", "p", "g", "k00">>, ro |-> FALSE]>>
Init == \E f \in FlagSets, nm \in Names, e \in Envs, have \in [1..3 -> 0..1], g \in CfgSets \X CfgSets \X CfgSets :
          /\ \A i \in 1..3 : have[i] = 0 => g[i] = CHOOSE x \in CfgSets : TRUE
          /\ run = [flags |-> f \o (IF nm = "none" THEN <<>> ELSE <<KV("config", nm)>>), args |-> <<"BUILD">>, stdin |-> <<>>,
                    env |-> [has |-> e # "none", config |-> IF e = "none" THEN "" ELSE e, diff |-> "", multi |-> ""]]
          /\ in = [files |-> Files, cwd |-> "a", runs |-> <<>>, cfgs |-> Cat2([i \in 1..3 |-> IF have[i] = 1 THEN <<[path |-> Paths[i], set |-> g[i], broken |-> FALSE, how |-> ""]>> ELSE <<>>])]
          /\ c = Start /\ pc = "parse"
Sel == Select(in, run)
Parse == pc = "parse" /\ c' = Assign(run.flags, c) /\ pc' = (CASE Sel.k = "file" -> "load" [] Sel.k = "none" -> "done" [] OTHER -> "stop") /\ UNCHANGED <<in, run>>
LoadIt == pc = "load" /\ c' = Load(in.cfgs[Sel.i].set, c) /\ pc' = "again" /\ UNCHANGED <<in, run>>
Again == pc = "again" /\ c' = Assign(run.flags, c) /\ pc' = "done" /\ UNCHANGED <<in, run>>
Next == Parse \/ LoadIt \/ Again
Cfg == IF Sel.k = "file" THEN in.cfgs[Sel.i].set ELSE <<>>
Set(q) == {q[i] : i \in 1..Len(q)}
Resolved == pc = "done" => LET w == Settings(run.flags, Cfg) IN c.o = w.o /\ c.wlist = w.wlist /\ Set(c.allow) = w.allow /\ Set(c.disable) = w.disable
FlagWins == pc = "done" => \A n \in DOMAIN c.o : Last(run.flags, n) # 0 => c.o[n] = run.flags[Last(run.flags, n)].v
\* what the files say that are not selected makes no difference
Only == pc = "done" => LET others == [in EXCEPT !.cfgs = [i \in 1..Len(in.cfgs) |-> IF Sel.k = "file" /\ i = Sel.i THEN in.cfgs[i] ELSE [in.cfgs[i] EXCEPT !.set = <<>>]]] IN Run(others, in.files, run) = Run(in, in.files, run)
Emit == pc = "parse" => PrintT("CASE " \o ToJson([in EXCEPT !.runs = <<run>>]))
FlagDom == {<<>>, <<KV("mode", "check")>>, <<KV("lint", "warn"), KV("mode", "fix")>>, <<KV("warnings", "+unsorted-dict-items"), KV("lint", "warn")>>, <<KV("v", "false"), KV("allowsort", "foo_library.zz")>>}
BigFlagDom == FlagDom \cup {<<KV("type", "bzl"), KV("d", "false")>>, <<KV("d", "true"), KV("diff_command", "vd0")>>, <<KV("warnings", "print"), KV("lint", "warn"), KV("format", "json")>>, <<KV("buildifier_disable", "listsort")>>, <<KV("lint", "off"), KV("path", "x.bzl")>>}
CfgDom == {<<KV("mode", "check"), KV("lint", "warn"), KV("warnings", "-print")>>, <<KV("v", "true"), KV("allowsort", "x.y"), KV("lint", "fix")>>}
BigCfgDom == CfgDom \cup {<<KV("d", "true"), KV("diff_command", "vd1"), KV("lint", "warn"), KV("warningsList", "+unsorted-dict-items|-print")>>, <<KV("type", "bzl"), KV("allowsort", "foo_library.zz"), KV("buildifier_disable", "label"), KV("mode", "print_if_changed")>>}
====
