---- MODULE T_Gram ----
(* Conformance of the parser with the grammar: what is accepted, which tree it gives, and that the printed tree reads back. *)
EXTENDS Indent, TraceCommon
VARIABLES h, done
Read(in, lx) == IF in.lines = <<>> THEN ParseFile(in.ts, lx) ELSE Parse(in.lines, lx)
\* a dot next to a number may belong to the number
Dotty(ts) == \E i \in 1..Len(ts) - 1 : (ts[i].t = "num" /\ IsOp(ts, i + 1, ".")) \/ (ts[i + 1].t = "num" /\ IsOp(ts, i, "."))
Unclear(in) == Dotty(in.ts) \/ \E i \in 1..Len(in.lines) : Dotty(in.lines[i].ts)
\* outside a line of its own, an open bracket joins lines
RECURSIVE Net(_, _, _)
Net(ts, i, d) == IF d < 0 THEN -1 ELSE IF i > Len(ts) THEN d ELSE Net(ts, i + 1, d + (IF OpAt(ts, i) \in {"(", "[", "{"} THEN 1 ELSE IF OpAt(ts, i) \in {")", "]", "}"} THEN -1 ELSE 0))
Joined(in) == \E i \in 1..Len(in.lines) : Net(in.lines[i].ts, 1, 0) # 0
What(r) ==
  LET in == r.in o == r.obs
      s == Read(in, FALSE)
      l == IF s.ok THEN s ELSE Read(in, TRUE)
  IN IF r.st # "ok" THEN r.st
     ELSE IF o.err3 # "" THEN o.err3
     ELSE IF ~o.acc /\ ~o.epos THEN "an error without a position in the file"
     ELSE IF o.acc /\ o.err2 # "" THEN "the printed file does not parse"
     ELSE IF o.acc /\ o.tree2 # o.tree THEN "printed as another tree"
     ELSE IF Unclear(in) \/ Joined(in) THEN ""
     ELSE IF s.ok THEN (IF ~o.acc THEN "a file of the grammar was rejected" ELSE IF o.tree # s.n THEN "another tree" ELSE "")
     ELSE IF ~l.ok /\ o.acc THEN "a file outside the grammar was accepted" ELSE ""
Init == h \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ (What(Recs[h]) = "" \/ Bad(h, What(Recs[h])))
====
