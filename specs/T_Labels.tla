---- MODULE T_Labels ----
(* Conformance of the real label functions with the label algebra. *)
EXTENDS Labels, TraceCommon
VARIABLES h, done
Same(l, o) == l.repo = o.repo /\ l.pkg = o.pkg /\ l.target = o.target
GoodOne(in, o) ==
  /\ o.refl
  /\ WFAbs(in.s) =>
       /\ Same(ParseAbs(in.s), o.parse)
       /\ Same(ParseAbs(in.s), o.rel)
       /\ o.fmt = Format(ParseAbs(in.s))
       /\ o.fmtrel = FormatRel(ParseAbs(in.s), in.pkg)
       /\ o.short = Shorten(in.s, in.pkg)
       /\ Same(ParseAbs(in.s), o.reparse)
  /\ WFRel(in.s) =>
       /\ Same(ParseRel(in.s, in.pkg), o.rel)
       /\ o.short = in.s
  /\ WF(in.s) => o.short2 = o.short /\ Len(o.short) <= Len(in.s)
\* pairs: s with every other spelling in in.others
GoodEq(in, o) ==
  \A j \in 1..Len(in.others) :
     /\ o.eq[j] = o.qe[j]
     /\ (WF(in.s) /\ WF(in.others[j])) => o.eq[j] = LabelEq(in.s, in.others[j], in.pkg)
Good(r) == r.st = "ok" /\ IF r.in.k = "one" THEN GoodOne(r.in, r.obs) ELSE GoodEq(r.in, r.obs)
Init == h \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ (Good(Recs[h]) \/ Bad(h, "label operations disagree with the label algebra"))
====
