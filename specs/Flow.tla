---- MODULE Flow ----
(* Execution paths of a structured function body.  A statement list is run from a set of states (a state is the set of
   local variables assigned so far); conditions may turn out either way, a loop runs any number of times.  Exec returns
   the states in which the list is left in each way and the facts met on some path: statements reached, uses of a
   variable not assigned, returns with and without a value.  Statements are numbered in the order of the file. *)
EXTENDS Tree, FiniteSets, TLC
\* A statement's nested lists
Blocks(s) == CASE s.t = "def" -> <<s.k[3].k>> [] s.t = "for" -> <<s.k[3].k>> [] s.t = "if" -> <<s.k[2].k, s.k[3].k>> [] OTHER -> <<>>
RECURSIVE Count(_), CountAll(_)
Count(s) == 1 + (LET b == Blocks(s) IN IF Len(b) = 0 THEN 0 ELSE IF Len(b) = 1 THEN CountAll(b[1]) ELSE CountAll(b[1]) + CountAll(b[2]))
CountAll(q) == IF q = <<>> THEN 0 ELSE Count(q[1]) + CountAll(Tail(q))

\* Names in a target of an assignment or of a loop
RECURSIVE Targets(_)
Targets(n) == IF n.t = "id" THEN {n.v} ELSE IF n.t \in {"tuple", "list"} THEN UNION {Targets(n.k[i]) : i \in 1..Len(n.k)} ELSE {}
\* Names of a parameter
ParamName(p) ==
  LET q == IF p.t = "asg" THEN p.k[1] ELSE p
      u == IF q.t = "un" THEN (IF Len(q.k) = 0 THEN N("id", "", <<>>) ELSE q.k[1]) ELSE q
      v == IF u.t = "typed" THEN u.k[1] ELSE u
  IN v.v
ParamNames(def) == {ParamName(def.k[1].k[i]) : i \in 1..Len(def.k[1].k)} \ {""}

\* The names an expression reads, one for every occurrence; names bound inside of it are not among them.  A comprehension's
\* first operand and the defaults of a lambda are evaluated outside of it.
Minus(q, B) == SelectSeq(q, LAMBDA x : x \notin B)
RECURSIVE Uses(_), UsesAll(_), ClauseVars(_), TargetUses(_)
UsesAll(q) == IF q = <<>> THEN <<>> ELSE Uses(q[1]) \o UsesAll(Tail(q))
ClauseVars(q) == UNION {IF q[i].t = "forc" THEN Targets(q[i].k[1]) ELSE {} : i \in 1..Len(q)}
\* what a target reads: a[i] reads a and i
TargetUses(n) == IF n.t = "id" THEN <<>> ELSE IF n.t \in {"tuple", "list"} THEN Flat([i \in 1..Len(n.k) |-> TargetUses(n.k[i])]) ELSE Uses(n)
Uses(n) ==
  CASE n.t = "id" -> <<n.v>>
    [] n.t = "asg" -> Uses(n.k[2])                       \* keyword argument
    [] n.t = "comp" -> LET cl == Tail(n.k) B == ClauseVars(cl)
                           inner == Flat([i \in 1..Len(cl) |-> IF cl[i].t = "ifc" THEN Uses(cl[i].k[1]) ELSE TargetUses(cl[i].k[1]) \o (IF i = 1 THEN <<>> ELSE Uses(cl[i].k[2]))])
                       IN Uses(cl[1].k[2]) \o Minus(inner \o Uses(n.k[1]), B)
    [] n.t = "lambda" -> LET ps == n.k[1].k B == {ParamName(ps[i]) : i \in 1..Len(ps)}
                         IN Flat([i \in 1..Len(ps) |-> IF ps[i].t = "asg" THEN Uses(ps[i].k[2]) ELSE <<>>]) \o Minus(UsesAll(n.k[2].k), B)
    [] OTHER -> UsesAll(n.k)
\* What a statement reads itself, without its nested lists
Defaults(def) == Flat([i \in 1..Len(def.k[1].k) |-> LET p == def.k[1].k[i] IN IF p.t = "asg" THEN Uses(p.k[2]) ELSE <<>>])
StmtUses(s) ==
  CASE s.t = "asg" -> (IF s.v = "=" THEN TargetUses(s.k[1]) ELSE Uses(s.k[1])) \o Uses(s.k[2])
    [] s.t = "for" -> TargetUses(s.k[1]) \o Uses(s.k[2])
    [] s.t = "if" -> Uses(s.k[1])
    [] s.t = "def" -> Defaults(s)
    [] s.t \in {"load", "comment", "branch"} -> <<>>
    [] s.t = "return" -> UsesAll(s.k)
    [] OTHER -> Uses(s)
StmtSets(s) == IF s.t = "asg" THEN Targets(s.k[1]) ELSE IF s.t = "for" THEN Targets(s.k[1]) ELSE {}

RECURSIVE Locals(_)
Locals(q) == IF q = <<>> THEN {} ELSE
  (IF q[1].t = "def" THEN {} ELSE StmtSets(q[1]) \cup UNION {Locals(Blocks(q[1])[i]) : i \in 1..Len(Blocks(q[1]))}) \cup Locals(Tail(q))
IsFail(s) == IsCallOf(s, "fail")

Nothing == [out |-> {}, brk |-> {}, cont |-> {}, reach |-> {}, bad |-> {}, bare |-> {}, val |-> {}]
Both(a, b) == [f \in DOMAIN a |-> a[f] \cup b[f]]
RECURSIVE Exec(_, _, _, _), One(_, _, _, _), Loop(_, _, _, _, _)
\* vars: the variables that are watched
Exec(q, n, In, vars) ==
  IF q = <<>> THEN [Nothing EXCEPT !.out = In]
  ELSE IF In = {} THEN Nothing
  ELSE LET a == One(q[1], n, In, vars)
       IN Both([a EXCEPT !.out = {}], Exec(Tail(q), n + Count(q[1]), a.out, vars))
\* repeat the body until no new state arises in front of it
Loop(s, n, In, acc, vars) ==
  LET b == Exec(s.k[3].k, n + 1, {S0 \cup (Targets(s.k[1]) \cap vars) : S0 \in In}, vars)
      next == In \cup b.out \cup b.cont
      all == Both(acc, b)
  IN IF next = In THEN [all EXCEPT !.out = In \cup b.brk, !.brk = {}, !.cont = {}] ELSE Loop(s, n, next, all, vars)
One(s, n, In, vars) ==
  LET u == SetOf(StmtUses(s)) \cap vars
      bad == {<<n, x>> : x \in {y \in u : \E S0 \in In : y \notin S0}}
      base == [Nothing EXCEPT !.reach = {n}, !.bad = bad]
  IN CASE s.t = "return" -> [base EXCEPT !.bare = IF s.k = <<>> THEN {n} ELSE {}, !.val = IF s.k # <<>> THEN {n} ELSE {}]
       [] s.t = "branch" -> IF s.v = "break" THEN [base EXCEPT !.brk = In] ELSE IF s.v = "continue" THEN [base EXCEPT !.cont = In] ELSE [base EXCEPT !.out = In]
       [] s.t = "if" -> Both(base, Both(Exec(s.k[2].k, n + 1, In, vars), Exec(s.k[3].k, n + 1 + CountAll(s.k[2].k), In, vars)))
       [] s.t = "for" -> Both(base, Loop(s, n, In, Nothing, vars))
       [] OTHER -> IF IsFail(s) THEN base ELSE [base EXCEPT !.out = {S0 \cup (StmtSets(s) \cap vars) : S0 \in In}]
Watched(def) == Locals(def.k[3].k) \ ParamNames(def)
Facts(def, n) == Exec(def.k[3].k, n + 1, {{}}, Watched(def))

\* The first statement of every list that is entered but not run to its end
RECURSIVE Dead(_, _, _)
Dead(q, n, reach) ==
  IF q = <<>> THEN {}
  ELSE IF q[1].t = "comment" THEN Dead(Tail(q), n + 1, reach)
  ELSE IF n \notin reach THEN {n}
  ELSE (CASE q[1].t = "for" -> Dead(q[1].k[3].k, n + 1, reach)
          [] q[1].t = "if" -> Dead(q[1].k[2].k, n + 1, reach) \cup Dead(q[1].k[3].k, n + 1 + CountAll(q[1].k[2].k), reach)
          [] OTHER -> {}) \cup Dead(Tail(q), n + Count(q[1]), reach)
\* returns in the text of a body, reached or not
RECURSIVE Returns(_, _)
Returns(q, n) ==
  IF q = <<>> THEN {} ELSE
  (IF q[1].t = "return" THEN {<<n, q[1].k # <<>>>>}
   ELSE IF q[1].t = "for" THEN Returns(q[1].k[3].k, n + 1)
   ELSE IF q[1].t = "if" THEN Returns(q[1].k[2].k, n + 1) \cup Returns(q[1].k[3].k, n + 1 + CountAll(q[1].k[2].k))
   ELSE {}) \cup Returns(Tail(q), n + Count(q[1]))

\* Every def of a list with its number
RECURSIVE Defs(_, _)
Defs(q, n) ==
  IF q = <<>> THEN <<>> ELSE
  LET s == q[1] b == Blocks(s)
      inner == IF Len(b) = 0 THEN <<>> ELSE IF Len(b) = 1 THEN Defs(b[1], n + 1) ELSE Defs(b[1], n + 1) \o Defs(b[2], n + 1 + CountAll(b[1]))
  IN (IF s.t = "def" THEN <<[def |-> s, n |-> n]>> ELSE <<>>) \o inner \o Defs(Tail(q), n + Count(s))
====
