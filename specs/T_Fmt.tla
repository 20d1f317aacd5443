---- MODULE T_Fmt ----
(* Conformance of the real formatter with its normal form. *)
EXTENDS Canon, TraceCommon, FiniteSets
VARIABLES h, done
ASPECT == IOEnv.ASPECT
\* bare and parenthesised tuples are the same tree
RECURSIVE Bare(_)
Bare(n) == [t |-> n.t, v |-> IF n.t = "tuple" THEN "" ELSE n.v, k |-> [i \in 1..Len(n.k) |-> Bare(n.k[i])], c |-> <<>>]
Tree0(f) == Bare(WithK(f, SelectSeq(f.k, LAMBDA s : s.t # "comment")))
NoLoads(f) == WithK(f, SelectSeq(f.k, LAMBDA s : ~IsLoad(s)))
Accepted(r) == r.st = "ok" /\ r.obs.err = "" /\ r.obs.err2 = ""
\* meaning kept: the same normal form before and after
GoodC14(r) == Tree0(Canon(r.in.tree)) = Tree0(Canon(r.obs.tree))
\* the output is in normal form: order and spelling of everything but loads
GoodC17(r) == NoLoads(Tree0(CanonExprs(r.in.tree, DefaultTb))) = NoLoads(Tree0(r.obs.tree))
\* loads: the statement list, with other statements reduced to their place
Shape(f) == [i \in 1..Len(f.k) |-> IF IsLoad(f.k[i]) THEN f.k[i] ELSE N("stmt", f.k[i].t, <<>>)]
GoodC18(r) == Shape(Tree0(CanonLoads(r.in.tree))) = Shape(Tree0(r.obs.tree))
GoodC16(r) ==
  IF "src" \in DOMAIN r.in THEN \A i \in 1..Len(r.obs.com) : LET x == r.obs.com[i] IN x[2] = 1 /\ x[3] = 1 /\ x[4] = 1 ELSE
  LET want == OneSuffix(Stream(Canon(r.in.tree)))
      times(c) == Cardinality({i \in 1..Len(want) : want[i] \in {"suffix " \o c, "line " \o c}})
  IN /\ want = Stream(r.obs.tree)
     /\ \A i \in 1..Len(r.obs.com) : LET x == r.obs.com[i] IN x[2] = 1 /\ x[3] = times(x[1]) /\ x[4] = x[3]
\* formatting a formatted file changes nothing
GoodC15(r) == r.obs.fmt2 = r.obs.fmt
Good(r) == Accepted(r) /\ CASE ASPECT = "C14" -> GoodC14(r) [] ASPECT = "C17" -> GoodC17(r) [] ASPECT = "C15" -> GoodC15(r) [] ASPECT = "C16" -> GoodC16(r) [] ASPECT = "C18" -> GoodC18(r)
Init == h \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ (Good(Recs[h]) \/ Bad(h, "formatted file differs from the normal form of the source"))
====
