---- MODULE T_Run ----
(* Conformance of whole runs of buildozer: every file of the workspace is judged from what it was. *)
EXTENDS Run, TraceCommon, FiniteSets
VARIABLES h, done
Perms(A) == {p \in [1..Cardinality(A) -> A] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
View(f) == StripFile(Canon(f))
Failed == [f |-> None, ch |-> FALSE, errs |-> 1, out |-> <<>>, vague |-> FALSE]
TextOf(w) == Join([j \in 1..Len(w.out) |-> w.out[j].s \o "\n"], "")
AllText(w) == \A j \in 1..Len(w.out) : w.out[j].k = "text"
RunBad(r) ==
  LET in == r.in
      o == r.obs
      fs == in.files
      es == Entries(in.mode, in.text, in.args)
      q == [k \in 1..Len(fs) |-> Queue(fs, es, in.cwd, k)]
      K == {k \in 1..Len(fs) : q[k] # <<>>}
      env(k) == [pkg |-> fs[k].pkg, dir |-> o.files[k].dir, keep |-> in.keep, eol |-> TRUE, types |-> in.types, vars |-> FALSE, spans |-> o.files[k].spans, path |-> o.files[k].path]
      want == [k \in K |-> IF o.files[k].tree.t = "none" THEN Failed ELSE RunQ(o.files[k].tree, q[k], env(k))]
      missing == Queue(fs, es, in.cwd, 0) # <<>>
      wrote == \E k \in K : ~o.files[k].same
      code == Status(want, q, missing, wrote, in.stdout)
      changed(k) == k \in K /\ want[k].ch /\ ~in.stdout
      vague == \E k \in K : want[k].vague \/ Conflict(o.files[k].tree)
      P == {k \in K : want[k].out # <<>>}
      D == {k \in K : want[k].ch}
      B == {k \in 1..Len(fs) : ~vague /\ changed(k) /\ View(o.files[k].after) # View(want[k].f)}
  IN IF o.leftover # "" THEN "a file that was not asked for: " \o o.leftover
     ELSE IF o.code # code THEN "exit code " \o ToString(o.code) \o ", want " \o ToString(code)
     ELSE IF \E k \in 1..Len(fs) : ~changed(k) /\ ~o.files[k].same THEN "a file was changed that should not be"
     ELSE IF B # {} THEN "wrong file " \o fs[Min2(B)].pkg
     ELSE IF ~in.stdout /\ (\A k \in K : AllText(want[k])) /\ ~\E p \in Perms(P) : o.out = Join([i \in 1..Cardinality(P) |-> TextOf(want[p[i]])], "") THEN "wrong output"
     ELSE IF in.stdout /\ ~vague /\ (\A k \in K : want[k].out = <<>>) /\
             ~\E p \in Perms(D) : View(WithK(o.outtree, Flat([i \in 1..Cardinality(D) |-> View(want[p[i]].f).k]))) = View(o.outtree) THEN "wrong files on standard output"
     ELSE ""
Init == h \in 1..NRecs /\ done = FALSE
Judge(r) ==
  IF r.st # "ok" THEN Bad(h, r.st)
  ELSE IF \E k \in 1..Len(r.in.files) : r.obs.files[k].tree.t # "none" /\ View(r.obs.files[k].tree) # View(r.in.files[k].tree) THEN Bad(h, "a file was not read as it was written")
  ELSE RunBad(r) = "" \/ Bad(h, RunBad(r))
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ Judge(Recs[h])
====
