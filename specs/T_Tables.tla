---- MODULE T_Tables ----
(* Conformance of user-defined tables: after every file that is read, a source file is formatted. *)
EXTENDS Custom, TraceCommon
VARIABLES h, done
RECURSIVE Bare(_)
Bare(n) == [t |-> n.t, v |-> IF n.t = "tuple" THEN "" ELSE n.v, k |-> [i \in 1..Len(n.k) |-> Bare(n.k[i])], c |-> <<>>]
Tree0(f) == Bare(WithK(f, SelectSeq(f.k, LAMBDA s : s.t # "comment")))
TbAt(in, n) == [TakeAll(BuiltIn, SubSeq(in.loads, 1, n)) EXCEPT !.pkg = PkgOf(in.path)]
Fmt(in, n) == Tree0(CanonTb(in.tree, TbAt(in, n)))
\* on the command line the replacing file comes first, whatever the order of the flags
Fails(in) == \E i \in 1..Len(in.loads) : ~Usable(in.loads[i])
\* what is wrong, "" if nothing
Wrong(r) ==
  LET in == r.in o == r.obs n == Len(in.loads) IN
  CASE in.how = "api" ->
         IF \E i \in 1..n : o.errs[i] = Usable(in.loads[i]) THEN "a table file was accepted or rejected wrongly"
         ELSE IF \E i \in 0..n : Tree0(o.trees[i + 1]) # Fmt(in, i) THEN "formatted with other tables than those in effect"
         ELSE ""
    [] in.how = "buildozer" ->
         IF Fails(in) THEN (IF o.code = 2 /\ ~o.changed THEN "" ELSE "an invalid table file was not reported, or something was changed")
         ELSE IF o.code # 0 THEN "exit status"
         ELSE IF (o.made = "list") # IsListAttr(TbAt(in, n), in.attr) THEN "a value of the wrong type was made" ELSE ""
    [] OTHER ->
         IF Fails(in) THEN (IF o.code = 2 /\ ~o.changed THEN "" ELSE "an invalid table file was not reported, or something was changed")
         ELSE IF o.code # 0 THEN "exit status"
         ELSE IF Tree0(o.trees[1]) # Fmt(in, n) THEN "formatted with other tables than those in effect" ELSE ""
Init == h \in 1..NRecs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED h
        /\ LET r == Recs[h] IN IF r.st # "ok" THEN Bad(h, r.st)
           ELSE LET w == Wrong(r) IN w = "" \/ BadWant(h, r.in.how \o ": " \o w, IF r.in.how = "buildozer" \/ Fails(r.in) THEN <<>> ELSE [i \in 1..Len(r.obs.trees) |-> Fmt(r.in, IF r.in.how = "api" THEN i - 1 ELSE Len(r.in.loads))])
====
