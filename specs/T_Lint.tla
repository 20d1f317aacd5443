---- MODULE T_Lint ----
(* Conformance of the control-flow and unused-name lints. *)
EXTENDS Scope, TraceCommon
VARIABLES h, done
Finds(o, cat) == SelectSeq(o.finds, LAMBDA f : f.cat = cat)
\* how often a finding is expected / was made
Bag(q, F(_)) == [x \in {F(q[i]) : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : F(q[i]) = x})]
Occ(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Placed(o) == \A i \in 1..Len(o.finds) : o.finds[i].ok
Sorted(o) == \A i \in 1..Len(o.finds) - 1 : o.finds[i].line <= o.finds[i + 1].line
Stmts(f) == Flat([i \in 1..Len(f.k) |-> <<>>])
RECURSIVE AllStmts(_)
AllStmts(q) == IF q = <<>> THEN <<>> ELSE LET b == Blocks(q[1]) IN <<q[1]>> \o (IF Len(b) = 0 THEN <<>> ELSE IF Len(b) = 1 THEN AllStmts(b[1]) ELSE AllStmts(b[1]) \o AllStmts(b[2])) \o AllStmts(Tail(q))
Union(q, F(_)) == UNION {F(q[i]) : i \in 1..Len(q)}
FlowWhat(o) ==
  LET f == o.tree
      ds == Defs(f.k, 1)
      all == AllStmts(f.k)
      facts == [i \in 1..Len(ds) |-> Facts(ds[i].def, ds[i].n)]
      \* unreachable
      dead == UNION {Dead(ds[i].def.k[3].k, ds[i].n + 1, facts[i].reach) : i \in 1..Len(ds)}
      un == Finds(o, "unreachable")
      \* uninitialized
      bad == UNION {facts[i].bad : i \in 1..Len(ds)}
      wantBad == [x \in bad |-> Occ(StmtUses(all[x[1]]), x[2])]
      gotBad == Bag(Finds(o, "uninitialized"), LAMBDA d : <<d.s, d.w>>)
      \* missing-return-value
      gotRet == Finds(o, "return-value")
      must == UNION {IF facts[i].val = {} THEN {} ELSE facts[i].bare \cup (IF facts[i].out # {} THEN {ds[i].n} ELSE {}) : i \in 1..Len(ds)}
      \* returns no path reaches, and everything in a function whose only values are returned there, may be reported or not
      open == UNION {LET rs == Returns(ds[i].def.k[3].k, ds[i].n + 1) hasVal == \E r \in rs : r[2] IN
                     {r[1] : r \in {q \in rs : ~q[2] /\ hasVal /\ (q[1] \notin facts[i].reach \/ facts[i].val = {})}}
                       \cup (IF hasVal /\ facts[i].val = {} /\ facts[i].out # {} THEN {ds[i].n} ELSE {}) : i \in 1..Len(ds)}
      gotRetSet == {gotRet[i].s : i \in 1..Len(gotRet)}
  IN IF {un[i].s : i \in 1..Len(un)} # dead \/ Len(un) # Cardinality(dead) THEN "unreachable"
     ELSE IF gotBad # wantBad THEN "uninitialized"
     ELSE IF ~(must \subseteq gotRetSet /\ gotRetSet \subseteq must \cup open /\ Len(gotRet) = Cardinality(gotRetSet)) THEN "return-value"
     ELSE ""
FlowWant(o) == LET ds == Defs(o.tree.k, 1) IN [i \in 1..Len(ds) |-> Facts(ds[i].def, ds[i].n)]
\* names that are both functions and variables of a scope, or bound twice in one statement, are left open
\* the symbols left when the ones that are unused or loaded twice have been removed again and again: a symbol
\* that clashes with a removed one may be unused itself
RECURSIVE Settled(_, _)
Settled(f, sy) ==
  LET v == [i \in 1..Len(sy) |-> Verdict(f, sy, i)]
      Keep == {i \in 1..Len(sy) : v[i] \notin {"twice", "unused"}}
      next == Flat([i \in 1..Len(sy) |-> IF i \in Keep THEN <<sy[i]>> ELSE <<>>])
  IN IF Cardinality(Keep) = Len(sy) THEN sy ELSE Settled(f, next)
NamesWhat(o) ==
  LET f == o.tree
      w == UnusedVars(f)
      q == Finds(o, "unused-variable")
      got == {[x |-> q[i].w, n |-> q[i].s, def |-> q[i].def] : i \in 1..Len(q)}
      sy == Symbols(f)
      v == [i \in 1..Len(sy) |-> Verdict(f, sy, i)]
      ld == Finds(o, "load")
      key(i) == <<sy[i].n, sy[i].x>>
      wantLd == {i \in 1..Len(sy) : v[i] \in {"twice", "clash", "unused"}}
      mayLd == {i \in 1..Len(sy) : v[i] = "open"}
      gotLd == [i \in 1..Len(ld) |-> <<ld[i].s, ld[i].w>>]
      cnt(I, k) == Cardinality({i \in I : key(i) = k})
      keys == {key(i) : i \in 1..Len(sy)} \cup SetOf(gotLd)
      \* the fix removes what is reported as unused or loaded twice and keeps everything else
      fx == Symbols(o.fixed)
      stay(s, x, from, lab) == <<lab, from, x>>
      leftBag(Q) == [k \in {<<Q[i].lab, Q[i].from, Q[i].x>> : i \in 1..Len(Q)} |-> Cardinality({i \in 1..Len(Q) : <<Q[i].lab, Q[i].from, Q[i].x>> = k})]
      kept == Settled(f, sy)
      other(t) == SelectSeq(t.k, LAMBDA s : s.t \notin {"load", "comment"})
      openX == {sy[i].x : i \in mayLd}
      nopen(Q) == SelectSeq(Q, LAMBDA r : r.x \notin openX)
  IN IF ~(w.must \subseteq got /\ got \subseteq w.must \cup w.may /\ Len(q) = Cardinality(got)) THEN "unused-variable"
     ELSE IF \E k \in keys : Occ(gotLd, k) < cnt(wantLd, k) \/ Occ(gotLd, k) > cnt(wantLd \cup mayLd, k) THEN "load"
     ELSE IF [i \in 1..Len(other(f)) |-> Strip(other(f)[i])] # [i \in 1..Len(other(o.fixed)) |-> Strip(other(o.fixed)[i])] THEN "fixing loads changes something else"
     ELSE IF leftBag(nopen(fx)) # leftBag(nopen(kept)) THEN "fixing loads"
     ELSE ""
NamesWant(o) == [w |-> UnusedVars(o.tree), sy |-> [i \in 1..Len(Symbols(o.tree)) |-> <<Symbols(o.tree)[i].x, Verdict(o.tree, Symbols(o.tree), i)>>]]
What(r) ==
  IF r.st # "ok" THEN r.st
  ELSE IF r.obs.err # "" THEN ""
  ELSE IF ~Placed(r.obs) THEN "a finding that is not at its place"
  ELSE IF ~Sorted(r.obs) THEN "findings out of order"
  ELSE IF IOEnv.ASPECT = "C19" THEN FlowWhat(r.obs) ELSE NamesWhat(r.obs)
Want(r) == IF r.st # "ok" THEN "" ELSE IF IOEnv.ASPECT = "C19" THEN ToString(FlowWant(r.obs)) ELSE ToString(NamesWant(r.obs))
Init == h \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ (LET w == What(Recs[h]) IN w = "" \/ BadWant(h, w, Want(Recs[h])))
====
