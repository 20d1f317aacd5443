---- MODULE Grammar ----
(* The grammar of Starlark files over tokens, as a recursive descent with operator precedences.
   A token is [t, v]: t = "id", "num", "str" (v its text or value), "op" (punctuation and keywords, v its text), or one of
   "nl", "in", "out" (end of a logical line, a block begins, a block ends).
   Every parser takes the tokens and an index and gives [ok, n, i]: a tree (or a sequence of trees) and the next index.
   lx = TRUE is the lenient reading, which the strict language is contained in: not, lambda and conditionals without
   parentheses as operands, chains of comparisons, repeated commas, leading commas in calls.  What is only lenient is unspecified. *)
EXTENDS Tree
Res(n, i) == [ok |-> TRUE, n |-> n, i |-> i]
NotOk == [ok |-> FALSE, n |-> <<>>, i |-> 0]
\* binary operators by precedence, loosest first
Level(o) == CASE o = "or" -> 1 [] o = "and" -> 2
              [] o \in {"==", "!=", "<", ">", "<=", ">=", "in", "not in"} -> 4
              [] o = "|" -> 5 [] o = "^" -> 6 [] o = "&" -> 7 [] o \in {"<<", ">>"} -> 8
              [] o \in {"+", "-"} -> 9 [] o \in {"*", "/", "//", "%"} -> 10 [] OTHER -> 0
AugOps == {"=", "+=", "-=", "*=", "/=", "//=", "%=", "&=", "|=", "^=", "<<=", ">>="}
IsOp(ts, i, o) == i <= Len(ts) /\ ts[i].t = "op" /\ ts[i].v = o
IsT(ts, i, t) == i <= Len(ts) /\ ts[i].t = t
OpAt(ts, i) == IF i <= Len(ts) /\ ts[i].t = "op" THEN ts[i].v ELSE ""
BinOp(ts, i) == IF OpAt(ts, i) = "not" /\ IsOp(ts, i + 1, "in") THEN "not in" ELSE OpAt(ts, i)
Width(o) == IF o = "not in" THEN 2 ELSE 1
RECURSIVE Commas(_, _)
\* index behind one comma (lenient: behind all of them), i if there is none
Commas(ts, i) == IF IsOp(ts, i, ",") THEN Commas(ts, i + 1) ELSE i
Comma(ts, i, lx) == IF ~IsOp(ts, i, ",") THEN i ELSE IF lx THEN Commas(ts, i) ELSE i + 1
RECURSIVE PTest(_, _, _), POr(_, _, _, _), PLoop(_, _, _, _, _), PUnary(_, _, _), PPrimary(_, _, _), PSuffix(_, _, _, _), PTests(_, _, _, _), PArgs(_, _, _, _), PParams(_, _, _, _, _),
          PEntries(_, _, _, _), PClauses(_, _, _, _), PVars(_, _, _, _), PExpr(_, _, _, _), PSyms(_, _, _, _)
Conditional(ts, l, lx) ==
  IF ~l.ok \/ ~IsOp(ts, l.i, "if") THEN l
  ELSE LET c == IF lx THEN PTest(ts, l.i + 1, lx) ELSE POr(ts, l.i + 1, 1, lx) IN
       IF ~c.ok \/ ~IsOp(ts, c.i, "else") THEN NotOk
       ELSE LET e == PTest(ts, c.i + 1, lx) IN IF e.ok THEN Res(N("cond", "", <<l.n, c.n, e.n>>), e.i) ELSE NotOk
Lambda(ts, i, lx) ==
  LET p == PParams(ts, i + 1, ":", FALSE, lx) IN
  IF ~p.ok THEN NotOk
  ELSE LET b == PTest(ts, p.i + 1, lx) IN IF b.ok THEN Res(N("lambda", "", <<N("params", "", p.n), N("block", "", <<b.n>>)>>), b.i) ELSE NotOk
\* lenient: a conditional may stand inside the condition
PTest(ts, i, lx) == IF IsOp(ts, i, "lambda") THEN Lambda(ts, i, lx) ELSE Conditional(ts, POr(ts, i, 1, lx), lx)
\* operators of level p and tighter
POr(ts, i, p, lx) ==
  IF p = 3 THEN (IF IsOp(ts, i, "not") THEN LET x == POr(ts, i + 1, 3, lx) IN IF x.ok THEN Res(N("un", "not", <<x.n>>), x.i) ELSE NotOk ELSE POr(ts, i, 4, lx))
  ELSE IF p > 10 THEN PUnary(ts, i, lx)
  ELSE LET l == POr(ts, i, p + 1, lx) IN IF l.ok THEN PLoop(ts, l, p, lx, FALSE) ELSE NotOk
\* left-associative operators of level p behind l; comparisons do not associate
PLoop(ts, l, p, lx, cmp) ==
  LET o == BinOp(ts, l.i) IN
  IF Level(o) # p THEN l
  ELSE IF p = 4 /\ cmp /\ ~lx THEN NotOk
  ELSE LET r == POr(ts, l.i + Width(o), p + 1, lx) IN IF r.ok THEN PLoop(ts, Res(N("bin", o, <<l.n, r.n>>), r.i), p, lx, TRUE) ELSE NotOk
PUnary(ts, i, lx) ==
  IF OpAt(ts, i) \in {"-", "+", "~"} THEN LET x == PUnary(ts, i + 1, lx) IN IF x.ok THEN Res(N("un", ts[i].v, <<x.n>>), x.i) ELSE NotOk
  ELSE IF lx /\ IsOp(ts, i, "lambda") THEN Lambda(ts, i, lx)
  ELSE IF lx /\ IsOp(ts, i, "not") THEN LET x == POr(ts, i + 1, 3, lx) IN IF x.ok THEN Res(N("un", "not", <<x.n>>), x.i) ELSE NotOk
  ELSE LET x == PPrimary(ts, i, lx) IN IF x.ok THEN PSuffix(ts, x.n, x.i, lx) ELSE NotOk
\* test, test, ... up to a closing bracket, with a comma at the end allowed; n: the trees, c: there was a comma at the end
PTests(ts, i, q, lx) ==
  LET x == PTest(ts, i, lx) IN
  IF ~x.ok THEN [ok |-> FALSE, n |-> <<>>, i |-> 0, c |-> FALSE]
  ELSE LET j == Comma(ts, x.i, lx) IN
       IF j = x.i THEN [ok |-> TRUE, n |-> Append(q, x.n), i |-> j, c |-> FALSE]
       ELSE IF OpAt(ts, j) \in {"]", ")", "}"} THEN [ok |-> TRUE, n |-> Append(q, x.n), i |-> j, c |-> TRUE]
       ELSE PTests(ts, j, Append(q, x.n), lx)
Closing(r, ts, b) == IF r.ok /\ IsOp(ts, r.i, b) THEN Res(r.n, r.i + 1) ELSE NotOk
Wrap(r, t, v) == IF r.ok THEN Res(N(t, v, r.n), r.i) ELSE NotOk
PPrimary(ts, i, lx) ==
  IF IsT(ts, i, "id") THEN Res(N("id", ts[i].v, <<>>), i + 1)
  ELSE IF IsT(ts, i, "num") THEN Res(N("num", ts[i].v, <<>>), i + 1)
  ELSE IF IsT(ts, i, "str") THEN Res(N("str", ts[i].v, <<>>), i + 1)
  ELSE IF IsOp(ts, i, "[")
  THEN IF IsOp(ts, i + 1, "]") THEN Res(N("list", "", <<>>), i + 2)
       ELSE LET x == PTest(ts, i + 1, lx) IN
            IF x.ok /\ IsOp(ts, x.i, "for")
            THEN LET c == PClauses(ts, x.i, <<>>, lx) IN Wrap(Closing([ok |-> c.ok, n |-> <<x.n>> \o c.n, i |-> c.i], ts, "]"), "comp", "[")
            ELSE Wrap(Closing(PTests(ts, i + 1, <<>>, lx), ts, "]"), "list", "")
  ELSE IF IsOp(ts, i, "(")
  THEN IF IsOp(ts, i + 1, ")") THEN Res(N("tuple", "", <<>>), i + 2)
       ELSE LET q == PTests(ts, i + 1, <<>>, lx) IN
            IF ~q.ok \/ ~IsOp(ts, q.i, ")") THEN NotOk
            ELSE IF Len(q.n) = 1 /\ ~q.c THEN Res(q.n[1], q.i + 1) ELSE Res(N("tuple", "", q.n), q.i + 1)
  ELSE IF IsOp(ts, i, "{")
  THEN IF IsOp(ts, i + 1, "}") THEN Res(N("dict", "", <<>>), i + 2)
       ELSE LET k == PTest(ts, i + 1, lx) IN
            IF ~k.ok THEN NotOk
            ELSE IF ~IsOp(ts, k.i, ":") THEN Wrap(Closing(PTests(ts, i + 1, <<>>, lx), ts, "}"), "set", "")
            ELSE LET v == PTest(ts, k.i + 1, lx) IN
                 IF ~v.ok THEN NotOk
                 ELSE IF IsOp(ts, v.i, "for")
                 THEN LET c == PClauses(ts, v.i, <<>>, lx) IN Wrap(Closing([ok |-> c.ok, n |-> <<N("kv", "", <<k.n, v.n>>)>> \o c.n, i |-> c.i], ts, "}"), "comp", "{")
                 ELSE Wrap(Closing(PEntries(ts, i + 1, <<>>, lx), ts, "}"), "dict", "")
  ELSE IF lx /\ IsOp(ts, i, "load") /\ IsOp(ts, i + 1, "(")
  THEN LET m == Commas(ts, i + 2) IN
       IF ~IsT(ts, m, "str") THEN NotOk
       ELSE LET q == PSyms(ts, Comma(ts, m + 1, TRUE), <<>>, TRUE) IN IF Comma(ts, m + 1, TRUE) > m + 1 /\ q.ok /\ IsOp(ts, q.i, ")") THEN Res(N("load", ts[m].v, q.n), q.i + 1) ELSE NotOk
  ELSE NotOk
PEntries(ts, i, q, lx) ==
  LET k == PTest(ts, i, lx) IN
  IF ~k.ok \/ ~IsOp(ts, k.i, ":") THEN NotOk
  ELSE LET v == PTest(ts, k.i + 1, lx) IN
       IF ~v.ok THEN NotOk
       ELSE LET j == Comma(ts, v.i, lx) r == Append(q, N("kv", "", <<k.n, v.n>>)) IN IF j = v.i \/ IsOp(ts, j, "}") THEN Res(r, j) ELSE PEntries(ts, j, r, lx)
PClauses(ts, i, q, lx) ==
  IF IsOp(ts, i, "for")
  THEN LET v == PVars(ts, i + 1, <<>>, lx) IN
       IF ~v.ok \/ ~IsOp(ts, v.i, "in") THEN NotOk
       ELSE LET x == POr(ts, v.i + 1, 1, lx) IN IF x.ok THEN PClauses(ts, x.i, Append(q, N("forc", "", <<v.n, x.n>>)), lx) ELSE NotOk
  ELSE IF IsOp(ts, i, "if") THEN LET x == POr(ts, i + 1, 1, lx) IN IF x.ok THEN PClauses(ts, x.i, Append(q, N("ifc", "", <<x.n>>)), lx) ELSE NotOk
  ELSE Res(q, i)
\* loop variables
PVars(ts, i, q, lx) ==
  LET p == PPrimary(ts, i, lx)
      x == IF p.ok THEN PSuffix(ts, p.n, p.i, lx) ELSE NotOk
  IN IF ~x.ok THEN NotOk
     ELSE IF IsOp(ts, x.i, ",") THEN PVars(ts, x.i + 1, Append(q, x.n), lx)
     ELSE Res(IF q = <<>> THEN x.n ELSE N("tuple", "", Append(q, x.n)), x.i)
PArgs(ts, i, q, lx) ==
  IF IsOp(ts, i, ")") THEN Res(q, i)
  ELSE LET a == IF IsT(ts, i, "id") /\ IsOp(ts, i + 1, "=") THEN LET x == PTest(ts, i + 2, lx) IN [x EXCEPT !.n = IF x.ok THEN N("asg", "=", <<N("id", ts[i].v, <<>>), x.n>>) ELSE <<>>]
                ELSE IF OpAt(ts, i) \in {"*", "**"} THEN LET x == PTest(ts, i + 1, lx) IN [x EXCEPT !.n = IF x.ok THEN N("un", ts[i].v, <<x.n>>) ELSE <<>>]
                ELSE PTest(ts, i, lx)
       IN IF ~a.ok THEN NotOk ELSE LET j == Comma(ts, a.i, lx) IN IF j = a.i THEN Res(Append(q, a.n), j) ELSE PArgs(ts, j, Append(q, a.n), lx)
OptTest(ts, i, F(_, _, _), lx, stop) == IF OpAt(ts, i) \in stop THEN Res(None, i) ELSE F(ts, i, lx)
Full(ts, i, lx) == PExpr(ts, i, <<>>, lx)
PSuffix(ts, n, i, lx) ==
  IF IsOp(ts, i, ".") THEN (IF IsT(ts, i + 1, "id") THEN PSuffix(ts, N("dot", ts[i + 1].v, <<n>>), i + 2, lx) ELSE NotOk)
  ELSE IF IsOp(ts, i, "(")
  THEN LET a == PArgs(ts, IF lx /\ IsOp(ts, i + 1, ",") /\ ~IsOp(ts, Commas(ts, i + 1), ")") THEN Commas(ts, i + 1) ELSE i + 1, <<>>, lx) IN
       IF a.ok /\ IsOp(ts, a.i, ")") THEN PSuffix(ts, N("call", "", <<n>> \o a.n), a.i + 1, lx) ELSE NotOk
  ELSE IF IsOp(ts, i, "[")
  THEN LET a == OptTest(ts, i + 1, Full, lx, {":"}) IN
       IF ~a.ok THEN NotOk
       ELSE IF IsOp(ts, a.i, "]") THEN PSuffix(ts, N("index", "", <<n, a.n>>), a.i + 1, lx)
       ELSE IF ~IsOp(ts, a.i, ":") THEN NotOk
       ELSE LET b == OptTest(ts, a.i + 1, PTest, lx, {":", "]"}) IN
            IF ~b.ok THEN NotOk
            ELSE IF IsOp(ts, b.i, "]") THEN PSuffix(ts, N("slice", "1", <<n, a.n, b.n, None>>), b.i + 1, lx)
            ELSE IF ~IsOp(ts, b.i, ":") THEN NotOk
            ELSE LET c == OptTest(ts, b.i + 1, PTest, lx, {"]"}) IN
                 IF c.ok /\ IsOp(ts, c.i, "]") THEN PSuffix(ts, N("slice", "2", <<n, a.n, b.n, c.n>>), c.i + 1, lx) ELSE NotOk
  ELSE Res(n, i)
\* parameters up to the token stop; in a def they may have types
Typed(ts, i, ty, lx) ==
  IF ~IsT(ts, i, "id") THEN NotOk
  ELSE IF ty /\ IsOp(ts, i + 1, ":") THEN LET x == PTest(ts, i + 2, lx) IN IF x.ok THEN Res(N("typed", "", <<N("id", ts[i].v, <<>>), x.n>>), x.i) ELSE NotOk
  ELSE Res(N("id", ts[i].v, <<>>), i + 1)
Param(ts, i, stop, ty, lx) ==
  IF IsOp(ts, i, "**") THEN LET x == Typed(ts, i + 1, ty, lx) IN IF x.ok THEN Res(N("un", "**", <<x.n>>), x.i) ELSE NotOk
  ELSE IF IsOp(ts, i, "*") THEN (IF OpAt(ts, i + 1) \in {",", stop} THEN Res(N("un", "*", <<>>), i + 1)
                                 ELSE LET x == Typed(ts, i + 1, ty, lx) IN IF x.ok THEN Res(N("un", "*", <<x.n>>), x.i) ELSE NotOk)
  ELSE LET x == Typed(ts, i, ty, lx) IN
       IF ~x.ok \/ ~IsOp(ts, x.i, "=") THEN x
       ELSE LET d == PTest(ts, x.i + 1, lx) IN IF d.ok THEN Res(N("asg", "=", <<x.n, d.n>>), d.i) ELSE NotOk
PParams(ts, i, stop, ty, lx) ==
  IF IsOp(ts, i, stop) THEN Res(<<>>, i)
  ELSE LET p == Param(ts, i, stop, ty, lx) IN
       IF ~p.ok THEN NotOk
       ELSE IF IsOp(ts, p.i, stop) THEN Res(<<p.n>>, p.i)
       ELSE IF ~IsOp(ts, p.i, ",") THEN NotOk
       ELSE LET r == PParams(ts, p.i + 1, stop, ty, lx) IN IF r.ok THEN Res(<<p.n>> \o r.n, r.i) ELSE NotOk
\* an expression: tests with commas between them are a tuple
PExpr(ts, i, q, lx) ==
  LET x == PTest(ts, i, lx) IN
  IF ~x.ok THEN NotOk
  ELSE IF IsOp(ts, x.i, ",") THEN PExpr(ts, x.i + 1, Append(q, x.n), lx)
  ELSE Res(IF q = <<>> THEN x.n ELSE N("tuple", "", Append(q, x.n)), x.i)
PSyms(ts, i, q, lx) ==
  LET s == IF IsT(ts, i, "str") THEN Res(N("sym", ts[i].v, <<N("id", ts[i].v, <<>>)>>), i + 1)
           ELSE IF IsT(ts, i, "id") /\ IsOp(ts, i + 1, "=") /\ IsT(ts, i + 2, "str") THEN Res(N("sym", ts[i].v, <<N("id", ts[i + 2].v, <<>>)>>), i + 3)
           ELSE NotOk
  IN IF ~s.ok THEN NotOk
     ELSE LET j == Comma(ts, s.i, lx) r == Append(q, s.n) IN IF IsOp(ts, j, ")") THEN Res(r, j) ELSE IF j = s.i THEN NotOk ELSE PSyms(ts, j, r, lx)
(* ---- statements ---- *)
RECURSIVE PSmall(_, _, _, _), PStmts(_, _, _, _), PSuite(_, _, _), PIf(_, _, _)
EndsSmall(ts, i) == IsT(ts, i, "nl") \/ IsOp(ts, i, ";")
One(ts, i, lx) ==
  IF OpAt(ts, i) \in {"pass", "break", "continue"} THEN Res(N("branch", ts[i].v, <<>>), i + 1)
  ELSE IF IsOp(ts, i, "return")
  THEN IF EndsSmall(ts, i + 1) THEN Res(N("return", "", <<>>), i + 1) ELSE LET x == PExpr(ts, i + 1, <<>>, lx) IN IF x.ok THEN Res(N("return", "", <<x.n>>), x.i) ELSE NotOk
  ELSE IF ~lx /\ IsOp(ts, i, "load")
  THEN IF IsOp(ts, i + 1, "(") /\ IsT(ts, i + 2, "str") /\ IsOp(ts, i + 3, ",")
       THEN LET q == PSyms(ts, i + 4, <<>>, FALSE) IN IF q.ok THEN Res(N("load", ts[i + 2].v, q.n), q.i + 1) ELSE NotOk
       ELSE NotOk
  ELSE LET x == PExpr(ts, i, <<>>, lx) IN
       IF ~x.ok \/ OpAt(ts, x.i) \notin AugOps THEN x
       ELSE LET y == PExpr(ts, x.i + 1, <<>>, lx) IN IF y.ok THEN Res(N("asg", ts[x.i].v, <<x.n, y.n>>), y.i) ELSE NotOk
\* small statements to the end of the line
PSmall(ts, i, q, lx) ==
  LET x == One(ts, i, lx) IN
  IF ~x.ok THEN NotOk
  ELSE LET j == IF IsOp(ts, x.i, ";") THEN x.i + 1 ELSE x.i IN
       IF IsT(ts, j, "nl") THEN Res(Append(q, x.n), j + 1) ELSE IF j = x.i THEN NotOk ELSE PSmall(ts, j, Append(q, x.n), lx)
PSuite(ts, i, lx) ==
  IF ~IsOp(ts, i, ":") THEN NotOk
  ELSE IF IsT(ts, i + 1, "nl")
  THEN IF IsT(ts, i + 2, "in") THEN LET b == PStmts(ts, i + 3, <<>>, lx) IN IF b.ok /\ b.n # <<>> /\ IsT(ts, b.i, "out") THEN Res(b.n, b.i + 1) ELSE NotOk
       ELSE NotOk
  ELSE PSmall(ts, i + 1, <<>>, lx)
\* at an if or elif
PIf(ts, i, lx) ==
  LET c == PExpr(ts, i, <<>>, lx)
      b == IF c.ok THEN PSuite(ts, c.i, lx) ELSE NotOk
      elif == b.ok /\ (IsOp(ts, b.i, "elif") \/ (lx /\ IsOp(ts, b.i, "else") /\ IsOp(ts, b.i + 1, "if")))
      e == IF ~b.ok THEN NotOk
           ELSE IF elif THEN LET r == PIf(ts, IF IsOp(ts, b.i, "elif") THEN b.i + 1 ELSE b.i + 2, lx) IN IF r.ok THEN Res(<<r.n>>, r.i) ELSE NotOk
           ELSE IF IsOp(ts, b.i, "else") THEN PSuite(ts, b.i + 1, lx)
           ELSE Res(<<>>, b.i)
  IN IF e.ok THEN Res(N("if", "", <<c.n, N("block", "", b.n), N("block", "", e.n)>>), e.i) ELSE NotOk
Def(ts, i, lx) ==
  IF ~IsT(ts, i, "id") \/ ~IsOp(ts, i + 1, "(") THEN NotOk
  ELSE LET p == PParams(ts, i + 2, ")", TRUE, lx)
           t == IF ~p.ok THEN NotOk ELSE IF IsOp(ts, p.i + 1, "->") THEN PTest(ts, p.i + 2, lx) ELSE Res(None, p.i + 1)
           b == IF t.ok THEN PSuite(ts, t.i, lx) ELSE NotOk
       IN IF b.ok THEN Res(N("def", ts[i].v, <<N("params", "", p.n), t.n, N("block", "", b.n)>>), b.i) ELSE NotOk
For(ts, i, lx) ==
  LET v == PVars(ts, i, <<>>, lx)
      x == IF v.ok /\ IsOp(ts, v.i, "in") THEN PExpr(ts, v.i + 1, <<>>, lx) ELSE NotOk
      b == IF x.ok THEN PSuite(ts, x.i, lx) ELSE NotOk
  IN IF b.ok THEN Res(N("for", "", <<v.n, x.n, N("block", "", b.n)>>), b.i) ELSE NotOk
PStmts(ts, i, q, lx) ==
  IF i > Len(ts) \/ IsT(ts, i, "out") THEN Res(q, i)
  ELSE LET x == CASE OpAt(ts, i) = "def" -> Def(ts, i + 1, lx) [] OpAt(ts, i) = "for" -> For(ts, i + 1, lx) [] OpAt(ts, i) = "if" -> PIf(ts, i + 1, lx) [] OTHER -> NotOk
           s == IF OpAt(ts, i) \in {"def", "for", "if"} THEN (IF x.ok THEN Res(<<x.n>>, x.i) ELSE NotOk) ELSE PSmall(ts, i, <<>>, lx)
       IN IF s.ok THEN PStmts(ts, s.i, q \o s.n, lx) ELSE NotOk
\* a whole file: [ok, n]
ParseFile(ts, lx) == LET r == PStmts(ts, 1, <<>>, lx) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE NotOk
====
