---- MODULE MC_Suppress ----
(* Small programs laid out line by line by this model, with suppression comments at every place; the findings are known from
   the program, those silenced from the places of the comments, without looking at what a parser makes of them.  An item has
   a comment in front (b) and one at the end of its line (s; for a block at the end of the header's line, for a call at the
   end of its last line), "" if there is none.  The machine lays the program out item by item. *)
EXTENDS Suppress, Json, SequencesExt
CONSTANTS Cats, MaxComs, Wide
VARIABLES prog, todo, lines, finds, nodes
vars0 == <<prog, todo, lines, finds, nodes>>
It(t, b, s, k) == [t |-> t, b |-> b, s |-> s, k |-> k]
Com(c) == IF c = "long" THEN "# buildifier: disable=print-2" ELSE IF c = "bare" THEN "# disable=print" ELSE IF c = "doz" THEN "# x buildozer: disable=no-effect y" ELSE "# buildifier: disable=" \o c
Names1(c) == IF c \in {"", "long", "bare"} THEN "" ELSE IF c = "doz" THEN "no-effect" ELSE c
Text(t) == CASE t = "div" -> "x = 4 / 2" [] t = "print" -> "print(y)" [] t = "eff" -> "y" [] t = "both" -> "print(4 / 2)" [] t = "if" -> "if 4 / 2:" [] t = "for" -> "for i in y:" [] t = "def" -> "def f(y):" [] t = "arg" -> "6 / 3," [] t = "argp" -> "k = print(6 / 3),"
FindsOf(t) == CASE t \in {"div", "if", "arg"} -> {"integer-division"} [] t = "print" -> {"print"} [] t = "eff" -> {"no-effect"} [] t \in {"both", "argp"} -> {"integer-division", "print"} [] t = "call" -> {"print"} [] OTHER -> {}
\* programs without comments
Leaf == {It(t, "", "", <<>>) : t \in {"div", "eff", "both"}}
CallS == {It("call", "", "", <<It(a, "", "", <<>>), It("arg", "", "", <<>>)>>) : a \in {"arg", "argp"}}
Block(q) == It("if", "", "", q)
Inner == {<<a>> : a \in Leaf \cup CallS} \cup (IF Wide THEN {<<a, b>> : a \in Leaf, b \in Leaf \cup CallS} ELSE {})
Mid == {It(t, "", "", q) : t \in {"if", "for"}, q \in Inner}
Body == {<<m>> : m \in Mid} \cup {<<m, l>> : m \in Mid, l \in Leaf} \cup {<<l, m>> : m \in Mid, l \in {It("both", "", "", <<>>)}}
           \cup (IF Wide THEN {<<It("for", "", "", <<m, l>>), k>> : m \in Mid, l \in {It("div", "", "", <<>>)}, k \in Leaf} ELSE {})
Bare == {<<It("def", "", "", q), It("both", "", "", <<>>)>> : q \in Body} \cup {<<c, It("both", "", "", <<>>)>> : c \in CallS}
\* places for comments: paths into the program with "b" or "s"
RECURSIVE Paths(_)
Paths(q) == UNION {{<<<<i>>, w>> : w \in {"b", "s"}} \cup {<<<<i>> \o p[1], p[2]>> : p \in Paths(q[i].k)} : i \in 1..Len(q)}
RECURSIVE PutAt(_, _, _, _)
PutAt(q, p, w, c) == [q EXCEPT ![p[1]] = IF Len(p) = 1 THEN (IF w = "b" THEN [@ EXCEPT !.b = c] ELSE [@ EXCEPT !.s = c]) ELSE [@ EXCEPT !.k = PutAt(@, Tail(p), w, c)]]
Init == /\ \E q \in Bare : \E p \in Paths(q), c \in Cats : LET q1 == PutAt(q, p[1], p[2], c) IN
             IF MaxComs = 1 THEN prog = q1 ELSE \E p2 \in Paths(q) \ {p}, c2 \in {"print", "integer-division"} : prog = PutAt(q1, p2[1], p2[2], c2)
        /\ todo = [i \in 1..Len(prog) |-> [it |-> prog[i], ind |-> 0, close |-> FALSE, from |-> 0]]
        /\ lines = <<>> /\ finds = {} /\ nodes = <<>>
Pad(n) == SubSeq("                    ", 1, n)
Suf(s) == IF s = "" THEN "" ELSE "  " \o Com(s)
Node(s, e, cs) == [s |-> s, e |-> e, c |-> cs]
C1(k, l, c) == IF c = "" THEN <<>> ELSE <<[k |-> k, l |-> l, t |-> Com(c)]>>
Add(q, n) == IF n.c = <<>> THEN q ELSE Append(q, n)
\* one entry of todo is laid out; a block or call leaves an entry behind that closes it
Next ==
  /\ todo # <<>> /\ UNCHANGED prog
  /\ LET w == todo[1] it == w.it pre == IF it.b = "" THEN <<>> ELSE <<Pad(w.ind) \o Com(it.b)>> l0 == Len(lines) + 1 l == l0 + Len(pre)
         kids == [i \in 1..Len(it.k) |-> [it |-> it.k[i], ind |-> w.ind + 4, close |-> FALSE, from |-> 0]]
         fs == {[cat |-> c, line |-> l] : c \in FindsOf(it.t)}
     IN IF w.close THEN
          /\ todo' = Tail(todo) /\ UNCHANGED finds
          /\ IF it.t = "call" THEN lines' = Append(lines, Pad(w.ind) \o ")" \o Suf(it.s)) /\ nodes' = Add(nodes, Node(w.from, Len(lines) + 1, C1("B", w.from - 1, it.b) \o C1("S", Len(lines) + 1, it.s)))
             ELSE UNCHANGED lines /\ nodes' = Add(nodes, Node(w.from, Len(lines), C1("B", w.from - 1, it.b)))
        ELSE IF it.t = "call" THEN
          /\ lines' = lines \o pre \o <<Pad(w.ind) \o "print(">> /\ finds' = finds \cup fs /\ UNCHANGED nodes
          /\ todo' = kids \o <<[w EXCEPT !.close = TRUE, !.from = l]>> \o Tail(todo)
        ELSE IF it.k # <<>> THEN
          /\ lines' = lines \o pre \o <<Pad(w.ind) \o Text(it.t) \o Suf(it.s)>> /\ finds' = finds \cup fs
          \* a comment behind the header belongs to the header
          /\ nodes' = Add(nodes, Node(l, l, C1("S", l, it.s)))
          /\ todo' = kids \o <<[w EXCEPT !.close = TRUE, !.from = l]>> \o Tail(todo)
        ELSE
          /\ lines' = lines \o pre \o <<Pad(w.ind) \o Text(it.t) \o Suf(it.s)>> /\ finds' = finds \cup fs
          /\ nodes' = Add(nodes, Node(l, l, C1("B", l0, it.b) \o C1("S", l, it.s))) /\ todo' = Tail(todo)
Done == todo = <<>>
Exp == {f \in finds : ~Silenced(nodes, f.cat, f.line)}
\* ---- laws
\* the same from the program alone: a finding survives unless an item on the way to it has a comment that names its category
RECURSIVE Height(_), HeightAll(_)
Height(x) == (IF x.b = "" THEN 0 ELSE 1) + 1 + (IF x.t = "call" THEN 1 ELSE 0) + HeightAll(x.k)
HeightAll(r) == IF r = <<>> THEN 0 ELSE Height(r[1]) + HeightAll(Tail(r))
RECURSIVE Survive(_, _)
Survive(q, off) ==     \* multiset not needed: a pair <<category, line>>; off = lines before
  IF q = <<>> THEN {} ELSE
  LET it == q[1]
      l == off + (IF it.b = "" THEN 1 ELSE 2)
      silent == {Names1(it.b)} \cup (IF it.t \in {"if", "for", "def"} THEN {} ELSE {Names1(it.s)})
      own == {[cat |-> c, line |-> l] : c \in FindsOf(it.t) \ (silent \cup {Names1(it.s)})}
      below == {f \in Survive(it.k, l) : f.cat \notin silent}
  IN own \cup below \cup Survive(Tail(q), off + Height(it))
Law == Done => Exp = Survive(prog, 0)
Emit == Done => PrintT("CASE " \o ToJson([typ |-> ".bzl", src |-> Join(lines, "\n") \o "\n", cats |-> <<"integer-division", "print", "no-effect">>, has |-> TRUE, exp |-> SetToSeq(Exp), fix |-> <<"integer-division">>, rest |-> <<>>]))
====
