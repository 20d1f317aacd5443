---- MODULE T_Fixes ----
(* Conformance of the automatic fixes. *)
EXTENDS Fix, TraceCommon
VARIABLES h, done
\* the order in which the categories are given does not matter
Sel(r) == r.obs.cats
WantFile(r) == FixedIn(Sel(r), r.obs.tree)
SeqHas(q, x) == \E i \in 1..Len(q) : q[i] = x
Bag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
\* comments: all of them stay, with their texts corrected if that is asked for
Text(c) == From(c, 2)
WantComs(r) == LET q == Coms(r.obs.tree) fix == SeqHas(r.in.cats, "skylark-comment") IN
  [i \in 1..Len(q) |-> IF fix /\ ~Contains(q[i], "disable=skylark-") THEN Starlark(Text(q[i])) ELSE Text(q[i])]
GotComs(r) == LET q == Coms(r.obs.fixed) IN [i \in 1..Len(q) |-> Text(q[i])]
What(r) ==
  IF r.st # "ok" THEN r.st
  ELSE LET o == r.obs w == WantFile(r) IN
  IF o.err # "" THEN ""
  ELSE IF ~o.warnsame THEN "looking for warnings changes the file"
  ELSE IF ~o.sugsame THEN "suggesting fixes changes the file"
  ELSE IF o.bad # "" THEN "the fixed file does not parse"
  ELSE IF ~Same(o.fixed, w) THEN "fixed file"
  ELSE IF Bag(GotComs(r)) # Bag(WantComs(r)) THEN "comments of the fixed file"
  \* (the fix of a later category can make work for an earlier one)
  ELSE IF o.left # <<>> /\ FixedIn(Sel(r), w) = w THEN "fixable findings left"
  ELSE IF ~o.stable /\ FixedIn(Sel(r), w) = w THEN "fixing again changes the file"
  ELSE IF ~o.noop /\ w = o.tree /\ Bag(WantComs(r)) = Bag([i \in 1..Len(Coms(o.tree)) |-> Text(Coms(o.tree)[i])]) THEN "nothing to fix but the file changes"
  ELSE IF o.sugbad # "" THEN "suggestion " \o o.sugbad
  ELSE ""
Want(r) == IF r.st # "ok" \/ r.obs.err # "" THEN "" ELSE ToJson(WantFile(r))
Init == h \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ (LET w == What(Recs[h]) IN w = "" \/ BadWant(h, w, Want(Recs[h])))
====
