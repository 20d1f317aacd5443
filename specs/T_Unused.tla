---- MODULE T_Unused ----
(* Conformance of unused_deps: what it asks the build tool for and what it prints. *)
EXTENDS Unused, TraceCommon
VARIABLES h, done
Ends(q, s) == Len(q) >= Len(s) /\ SubSeq(q, Len(q) - Len(s) + 1, Len(q)) = s
Has(q, x) == \E i \in 1..Len(q) : q[i] = x
Query(in) == "kind('(kt|java|android)_*', " \o Join(Asked(in), " + ") \o ")"
Wrong(r) ==
  LET in == r.in o == r.obs c == o.calls IN
  IF in.how = "extra" THEN
     IF o.code # 0 THEN "exit status"
     ELSE IF {Canonical(o.lines[i]) : i \in 1..Len(o.lines)} # NotUsed(in, in.query[1]) \/ Cardinality(NotUsed(in, in.query[1])) # Len(o.lines)
          THEN "other dependencies are reported than those that are not used" ELSE ""
  ELSE IF c = <<>> \/ c[1][1] # (IF in.cquery THEN "cquery" ELSE "query") \/ c[1][Len(c[1])] # Query(in) THEN "the targets are not asked for"
  ELSE IF in.query = <<>> THEN (IF o.code # 2 \/ o.lines # <<>> THEN "exit status without targets" ELSE "")
  ELSE IF ~\E i \in 1..Len(c) : c[i][1] = "build" /\ Ends(c[i], Asked(in)) /\ (\A j \in 1..Len(in.extra) : Has(c[i], in.extra[j]))
          /\ Has(c[i], "--output_groups=+unused_deps_outputs") /\ o.aspect THEN "the compiler's outputs are not built"
  ELSE IF o.code # 0 THEN "exit status"
  ELSE IF o.left # 0 THEN "something is left behind"
  ELSE IF o.lines # Output(in) THEN "proposed commands"
  ELSE IF o.none # (Output(in) = <<>>) THEN "whether there was anything to report" ELSE ""
Init == h \in 1..NRecs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED h
        /\ LET r == Recs[h] IN IF r.st # "ok" THEN Bad(h, r.st)
           ELSE LET w == Wrong(r) IN w = "" \/ BadWant(h, w, Output(r.in))
====
