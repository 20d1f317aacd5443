---- MODULE T_Bz ----
(* Conformance of buildozer with its command semantics: every recorded run is judged from the file it
   actually started from to the file it actually left. *)
EXTENDS Buildozer, TraceCommon
VARIABLES h, done
ASPECT == IOEnv.ASPECT
NoC(f) == StripFile(f)
\* with comments: the stream of tokens and comments
View(f) == IF ASPECT \in {"C05", "C08", "C09"} THEN OneSuffix(Stream(Canon(f))) ELSE NoC(Canon(f))
Opt(st, k, d) == IF k \in DOMAIN st THEN st[k] ELSE d
Stdin(r) == r.in.pkg = "-"
Env(r, i) == LET st == r.in.steps[i] IN [pkg |-> (IF Opt(st, "noshort", FALSE) THEN "!" ELSE "") \o (IF Opt(st, "keepcom", FALSE) THEN "^" ELSE "") \o r.in.pkg, vars |-> Opt(st, "vars", FALSE), dir |-> r.in.dir, keep |-> st.keep, eol |-> st.eol, types |-> st.types, spans |-> r.obs.steps[i].spans, path |-> r.obs.path]
Pre(r, i) == IF i = 1 THEN r.obs.tree ELSE r.obs.steps[i - 1].tree
ReadOnly(cs) == \A i \in 1..Len(cs) : cs[i].c \in Queries
PrintedOK(o, out) ==
  IF \A j \in 1..Len(out) : out[j].k = "text" THEN o.out = Join([j \in 1..Len(out) |-> out[j].s \o "\n"], "")
  ELSE IF \A j \in 1..Len(out) : out[j].k = "tree"
  THEN LET want == [j \in 1..Len(out) |-> Strip(CanonTb(Unmark(out[j].n), DefaultTb))]
           got == [j \in 1..Len(o.outtree.k) |-> Strip(CanonTb(o.outtree.k[j], DefaultTb))]
       IN got = want
  ELSE TRUE
StepBad(r, i) ==
  LET st == r.in.steps[i]
      o == r.obs.steps[i]
      pre == Pre(r, i)
      want == Run(pre, st.targets, st.cmds, Env(r, i))
      code == IF want.errs > 0 THEN 2 ELSE IF ~o.same THEN 0 ELSE IF ReadOnly(st.cmds) THEN 0 ELSE 3
  IN IF o.err # "" THEN "the file left behind does not parse"
     ELSE IF o.code # code /\ ~(Stdin(r) /\ o.code = 3 /\ code = 0 /\ ~o.same) THEN "exit code " \o ToString(o.code) \o ", want " \o ToString(code)
     ELSE IF ~want.ch /\ ~o.same THEN "the file was changed"
     ELSE IF ~PrintedOK(o, want.out) THEN "wrong output"
     ELSE IF ~want.vague /\ ~Conflict(pre) /\ View(o.tree) # View(want.f) /\ ~(Stdin(r) /\ o.same /\ want.f.k = <<>>) THEN "wrong file"
     ELSE IF ASPECT = "C31" /\ i > 1 /\ ~r.obs.steps[i - 1].same /\ ~o.same /\ want.f = pre THEN "a file that needs no fix was changed"
     ELSE ""
Init == h \in 1..NRecs /\ done = FALSE
Judge(r) ==
  IF r.st # "ok" THEN Bad(h, r.st)
  ELSE IF View(r.obs.tree) # View(r.in.tree) THEN Bad(h, "the initial file was not read as it was written")
  ELSE LET B == {i \in 1..Len(r.in.steps) : StepBad(r, i) # ""}
       IN B = {} \/ LET i == Min2(B) IN Bad(h, "step " \o ToString(i) \o ": " \o StepBad(r, i))
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ Judge(Recs[h])
====
