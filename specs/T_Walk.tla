---- MODULE T_Walk ----
(* Conformance of going through and editing syntax trees and of the rule view. *)
EXTENDS Walk, TraceCommon
VARIABLES h, done
In(q) == {q[i] : i \in 1..Len(q)}
Want(in, o) ==
  CASE in.api \in {"Walk", "WalkPointers"} -> Pre(o.before, 1, <<>>, {}, FALSE)
    [] in.api = "WalkInterruptable" -> Pre(o.before, 1, <<>>, In(in.stops), FALSE)
    [] in.api = "WalkStatements" -> Pre(o.before, 1, <<>>, In(in.stops), TRUE)
    [] in.api = "WalkOnce" -> PreSeq(Kids(o.before), 1, <<>>, 1..1000, FALSE)
    [] in.api = "Edit" -> Seen(o.before, 1, <<>>, In(in.repl))
    [] OTHER -> SeenSeq(Kids(o.before), 1, <<0>>, In(in.repl))
After(in, o) ==
  CASE in.api = "Edit" -> Edit(o.before, 1, In(in.repl)).n
    [] in.api = "EditChildren" -> EditBelow(o.before, In(in.repl))
    [] OTHER -> o.before
\* a node starts and ends inside of the node it belongs to, after the one before it
Parent(x) == x.up[Len(x.up)]
Places(o) ==
  LET v == o.visits s == o.spans IN
  \A i \in 1..Len(v) : v[i].up # <<>> =>
    LET p == Parent(v[i]) IN
    /\ s[i][1] <= s[i][2]
    /\ v[p].t = "file" \/ (s[p][1] <= s[i][1] /\ s[i][2] <= s[p][2])
Wrong(r) ==
  LET in == r.in o == r.obs IN
  IF in.how = "walk" THEN
     IF o.visits # Want(in, o) THEN "nodes visited"
     ELSE IF o.after # After(in, o) THEN "tree afterwards"
     ELSE IF o.copies # <<>> THEN "a copy differs"
     ELSE IF in.api = "Walk" /\ ~Places(o) THEN "place of a node" ELSE ""
  ELSE LET w == Run(o.before, in.path, in.ops) IN
     IF o.results # w.r THEN "result of an operation on a rule" ELSE IF o.after # w.f THEN "file afterwards" ELSE ""
Init == h \in 1..NRecs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED h
        /\ LET r == Recs[h] IN IF r.st # "ok" THEN Bad(h, r.st)
           ELSE LET w == Wrong(r) IN w = "" \/ BadWant(h, w \o (IF r.in.how = "walk" THEN " (" \o r.in.api \o ")" ELSE ""),
                  IF r.in.how = "walk" THEN [v |-> Want(r.in, r.obs), n |-> After(r.in, r.obs)] ELSE [v |-> Run(r.obs.before, r.in.path, r.in.ops).r, n |-> Run(r.obs.before, r.in.path, r.in.ops).f])
====
