---- MODULE MC_Grammar ----
(* Every sequence of up to N tokens, and every expression tree of bounded depth written with as few parentheses as the
   precedences allow.  Laws: the written tree parses to itself; the strict language is contained in the lenient one with
   the same trees; parentheses around any operand change nothing but the tree they force. *)
EXTENDS Grammar, Json, TLC
CONSTANTS N0, Deep, Sigma
VARIABLES s, done
T(x) == CASE x \in {"a", "b"} -> [t |-> "id", v |-> x] [] x = "1" -> [t |-> "num", v |-> x] [] x = "'" -> [t |-> "str", v |-> "s"] [] OTHER -> [t |-> "op", v |-> x]
NLT == [t |-> "nl", v |-> ""]
Op(x) == [t |-> "op", v |-> x]
\* ---- trees
A0 == {Id("a"), N("num", "1", <<>>)}
Bins == {"or", "and", "==", "not in", "|", "^", "&", "<<", "+", "*"}
Over(X, Y) == {N("bin", o, <<x, y>>) : o \in Bins, x \in X, y \in Y}
              \cup {N("un", o, <<x>>) : o \in {"not", "-", "~"}, x \in X} \cup {N("cond", "", <<x, Id("c"), y>>) : x \in X, y \in Y} \cup {N("cond", "", <<Id("b"), x, y>>) : x \in X, y \in Y}
              \cup {N("lambda", "", <<N("params", "", <<Id("p")>>), N("block", "", <<x>>)>>) : x \in X}
              \cup {N("dot", "d", <<x>>) : x \in X} \cup {N("index", "", <<x, y>>) : x \in X, y \in Y} \cup {N("call", "", <<x, y>>) : x \in X, y \in Y}
              \cup {N("tuple", "", <<x, y>>) : x \in X, y \in Y} \cup {N("list", "", <<x>>) : x \in X} \cup {N("tuple", "", <<x>>) : x \in X}
              \cup {N("comp", "[", <<x, N("forc", "", <<Id("v"), y>>), N("ifc", "", <<Id("e")>>)>>) : x \in X, y \in Y}
              \cup {N("dict", "", <<N("kv", "", <<x, y>>)>>) : x \in X, y \in Y} \cup {N("slice", "1", <<x, None, y, None>>) : x \in X, y \in Y}
A1 == Over(A0, A0)
Trees == A1 \cup Over(A1, {Id("z")}) \cup Over({Id("z")}, A1) \cup (IF Deep THEN Over({x \in A1 : x.t \in {"bin", "un", "cond", "lambda"}}, {x \in A1 : x.t \in {"bin", "un", "cond"} /\ x.k[1] = Id("a")}) ELSE {})
Prec(n) == CASE n.t = "lambda" -> 0 [] n.t = "cond" -> 0 [] n.t = "bin" -> Level(n.v) [] n.t = "un" /\ n.v = "not" -> 3 [] n.t = "un" -> 11 [] OTHER -> 12
RECURSIVE W(_, _), Ws(_, _)
OpT(o) == IF o = "not in" THEN <<Op("not"), Op("in")>> ELSE <<Op(o)>>
\* tokens of n where precedence p is wanted
W(n, p) ==
  IF Prec(n) < p THEN <<Op("(")>> \o W(n, 0) \o <<Op(")")>>
  ELSE CASE n.t = "id" -> <<T(n.v)>> [] n.t = "num" -> <<T(n.v)>> [] n.t = "none" -> <<>>
         [] n.t = "bin" -> W(n.k[1], Level(n.v) + (IF Level(n.v) = 4 THEN 1 ELSE 0)) \o OpT(n.v) \o W(n.k[2], Level(n.v) + 1)
         [] n.t = "un" -> <<Op(n.v)>> \o W(n.k[1], IF n.v = "not" THEN 3 ELSE 11)
         [] n.t = "cond" -> W(n.k[1], 1) \o <<Op("if")>> \o W(n.k[2], 1) \o <<Op("else")>> \o W(n.k[3], 0)
         [] n.t = "lambda" -> <<Op("lambda"), [t |-> "id", v |-> "p"], Op(":")>> \o W(n.k[2].k[1], 0)
         [] n.t = "dot" -> W(n.k[1], 12) \o <<Op("."), [t |-> "id", v |-> n.v]>>
         [] n.t = "index" -> W(n.k[1], 12) \o <<Op("[")>> \o W(n.k[2], 0) \o <<Op("]")>>
         [] n.t = "slice" -> W(n.k[1], 12) \o <<Op("["), Op(":")>> \o W(n.k[3], 0) \o <<Op("]")>>
         [] n.t = "call" -> W(n.k[1], 12) \o <<Op("(")>> \o W(n.k[2], 0) \o <<Op(")")>>
         [] n.t = "tuple" -> <<Op("(")>> \o Ws(n.k, ",") \o (IF Len(n.k) = 1 THEN <<Op(",")>> ELSE <<>>) \o <<Op(")")>>
         [] n.t = "list" -> <<Op("[")>> \o Ws(n.k, ",") \o <<Op("]")>>
         [] n.t = "dict" -> <<Op("{")>> \o W(n.k[1].k[1], 0) \o <<Op(":")>> \o W(n.k[1].k[2], 0) \o <<Op("}")>>
         [] n.t = "comp" -> <<Op("[")>> \o W(n.k[1], 0) \o <<Op("for"), [t |-> "id", v |-> "v"], Op("in")>> \o W(n.k[2].k[2], 1) \o <<Op("if"), [t |-> "id", v |-> "e"], Op("]")>>
         [] OTHER -> <<T(n.v)>>
Ws(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN W(q[1], 0) ELSE W(q[1], 0) \o <<Op(sep)>> \o Ws(Tail(q), sep)
IdTok(ts) == [i \in 1..Len(ts) |-> IF ts[i].t = "op" /\ ts[i].v \in {"a", "b", "c", "d", "e", "p", "v", "z"} THEN [t |-> "id", v |-> ts[i].v] ELSE ts[i]]
Init == done = FALSE /\ s \in {[k |-> "toks", ts |-> [i \in 1..Len(q) |-> T(q[i])] \o <<NLT>>, n |-> None] : q \in UNION {[1..k -> Sigma] : k \in 1..N0}}
                          \cup {[k |-> "tree", ts |-> IdTok(W(n, 0)) \o <<NLT>>, n |-> n] : n \in Trees}
Next == ~done /\ done' = TRUE /\ UNCHANGED s
TreeLaw == s.k = "tree" => LET r == ParseFile(s.ts, FALSE) IN r.ok /\ r.n = <<s.n>>
Contained == LET r == ParseFile(s.ts, FALSE) l == ParseFile(s.ts, TRUE) IN r.ok => (l.ok /\ l.n = r.n)
Parens == s.k = "tree" => LET r == ParseFile(<<Op("(")>> \o SubSeq(s.ts, 1, Len(s.ts) - 1) \o <<Op(")"), NLT>>, FALSE) IN r.ok /\ r.n = <<s.n>>
Emit == done => PrintT("CASE " \o ToJson([ts |-> s.ts, lines |-> <<>>, ws |-> 0, eof |-> 0]))
====
