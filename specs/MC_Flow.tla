---- MODULE MC_Flow ----
(* A small-step machine that runs a function body, every branch and every number of loop rounds being possible.  The
   facts met by the machine are among those Exec computes (so Exec misses nothing), and the facts of Exec agree with an
   independent definition by definite assignment (so Exec invents nothing). *)
EXTENDS Flow, Json
CONSTANTS Leaves, MaxTop, MaxIn, Deep
VARIABLES prog, stk, env, how
vars0 == <<prog, stk, env, how>>
X == "x"
Leaf(l) == CASE l = "set" -> Asg(X, N("num", "1", <<>>)) [] l = "use" -> Call("print", <<Id(X)>>) [] l = "ret" -> N("return", "", <<>>) [] l = "retv" -> N("return", "", <<N("num", "2", <<>>)>>)
            [] l = "retx" -> N("return", "", <<Id(X)>>) [] l = "break" -> N("branch", "break", <<>>) [] l = "cont" -> N("branch", "continue", <<>>) [] l = "fail" -> Call("fail", <<S("m")>>)
            [] l = "aug" -> N("asg", "+=", <<Id(X), N("num", "1", <<>>)>>) [] l = "pass" -> N("branch", "pass", <<>>)
Seqs(A, k) == UNION {[1..m -> A] : m \in 1..k}
If(a, b) == N("if", "", <<Id("c"), N("block", "", a), N("block", "", b)>>)
For(v, a) == N("for", "", <<Id(v), Id("q"), N("block", "", a)>>)
LeafS == {Leaf(l) : l \in Leaves}
Inner == Seqs(LeafS, MaxIn)
Comp1 == {If(a, b) : a \in Inner, b \in Inner \cup {<<>>}} \cup {For(v, a) : v \in {"i", X}, a \in Inner}
Comp2 == IF Deep THEN {For("i", <<a>>) : a \in Comp1} \cup {For("i", <<a, b>>) : a \in Comp1, b \in LeafS} \cup {If(<<a>>, <<b>>) : a \in Comp1, b \in LeafS} ELSE {}
Items == LeafS \cup Comp1 \cup Comp2
\* break and continue only inside of loops
RECURSIVE Legal(_, _)
Legal(q, inLoop) == \A i \in 1..Len(q) : CASE q[i].t = "branch" -> inLoop \/ q[i].v = "pass" [] q[i].t = "for" -> Legal(q[i].k[3].k, TRUE) [] q[i].t = "if" -> Legal(q[i].k[2].k, inLoop) /\ Legal(q[i].k[3].k, inLoop) [] OTHER -> TRUE
Def == N("def", "f", <<N("params", "", <<>>), None, N("block", "", prog)>>)
Vars == Watched(Def)
F == Facts(Def, 1)
\* ---- the machine: stk is a stack of lists to run, [q, n] and a mark for the loop a list is the body of
Init == \E m \in 1..MaxTop : prog \in [1..m -> Items] /\ (Deep /\ m > 1 => \E i \in 1..m : prog[i] \in LeafS) /\ Legal(prog, FALSE) /\ stk = <<[q |-> prog, n |-> 2, loop |-> <<>>]>> /\ env = {} /\ how = "run"
Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)
Rest == [Top EXCEPT !.q = Tail(@), !.n = @ + Count(Top.q[1])]
RECURSIVE Unwind(_)
Unwind(s) == IF s[Len(s)].loop # <<>> THEN s ELSE Unwind(SubSeq(s, 1, Len(s) - 1))
Enter(st, loopStmt, n) == Append(st, [q |-> loopStmt.k[3].k, n |-> n + 1, loop |-> <<[s |-> loopStmt, n |-> n]>>])
Step ==
  /\ how = "run" /\ UNCHANGED prog
  /\ IF Top.q = <<>>
     THEN IF Len(stk) = 1 THEN how' = "end" /\ UNCHANGED <<stk, env>>
          ELSE IF Top.loop # <<>> THEN UNCHANGED how /\ ((stk' = Pop /\ UNCHANGED env)
                                                        \/ (stk' = Enter(Pop, Top.loop[1].s, Top.loop[1].n) /\ env' = env \cup (Targets(Top.loop[1].s.k[1]) \cap Vars)))
          ELSE stk' = Pop /\ UNCHANGED <<env, how>>
     ELSE LET s == Top.q[1] st == Append(Pop, Rest) IN
          CASE s.t = "return" -> how' = (IF s.k = <<>> THEN "bare" ELSE "value") /\ UNCHANGED <<stk, env>>
            [] IsFail(s) -> how' = "fail" /\ UNCHANGED <<stk, env>>
            [] s.t = "if" -> UNCHANGED <<env, how>> /\ (stk' = Append(st, [q |-> s.k[2].k, n |-> Top.n + 1, loop |-> <<>>])
                                                       \/ stk' = Append(st, [q |-> s.k[3].k, n |-> Top.n + 1 + CountAll(s.k[2].k), loop |-> <<>>]))
            [] s.t = "for" -> UNCHANGED how /\ ((stk' = st /\ UNCHANGED env)
                                               \/ (stk' = Enter(st, s, Top.n) /\ env' = env \cup (Targets(s.k[1]) \cap Vars)))
            [] s.t = "branch" /\ s.v = "break" -> LET u == Unwind(stk) IN stk' = SubSeq(u, 1, Len(u) - 1) /\ UNCHANGED <<env, how>>
            [] s.t = "branch" /\ s.v = "continue" -> LET u == Unwind(stk) IN stk' = [u EXCEPT ![Len(u)].q = <<>>] /\ UNCHANGED <<env, how>>
            [] OTHER -> stk' = st /\ env' = env \cup (StmtSets(s) \cap Vars) /\ UNCHANGED how
Next == Step
\* ---- laws
Sound ==
  /\ ((how = "run" /\ Top.q # <<>>) => (Top.n \in F.reach /\ \A x \in SetOf(StmtUses(Top.q[1])) \cap Vars : (x \notin env => <<Top.n, x>> \in F.bad)))
  /\ (how = "end" => env \in F.out)
  /\ (how = "bare" => F.bare # {})
  /\ (how = "value" => F.val # {})
\* definite assignment: t = the list never ends normally, d = surely assigned at its normal end
RECURSIVE DA(_, _, _), DA1(_, _, _)
DA(q, n, d) ==
  IF q = <<>> THEN [t |-> FALSE, d |-> d, bad |-> {}, reach |-> {}]
  ELSE LET a == DA1(q[1], n, d) IN
       IF a.t THEN a ELSE LET b == DA(Tail(q), n + Count(q[1]), a.d) IN [b EXCEPT !.bad = @ \cup a.bad, !.reach = @ \cup a.reach]
DA1(s, n, d) ==
  LET bad == {<<n, x>> : x \in (SetOf(StmtUses(s)) \cap Vars) \ d} IN
  CASE s.t = "return" \/ IsFail(s) \/ (s.t = "branch" /\ s.v # "pass") -> [t |-> TRUE, d |-> d, bad |-> bad, reach |-> {n}]
    [] s.t = "for" -> LET b == DA(s.k[3].k, n + 1, d \cup Targets(s.k[1])) IN [t |-> FALSE, d |-> d, bad |-> bad \cup b.bad, reach |-> {n} \cup b.reach]
    [] s.t = "if" -> LET a == DA(s.k[2].k, n + 1, d) b == DA(s.k[3].k, n + 1 + CountAll(s.k[2].k), d) IN
                     [t |-> a.t /\ b.t, d |-> IF a.t THEN b.d ELSE IF b.t THEN a.d ELSE a.d \cap b.d, bad |-> bad \cup a.bad \cup b.bad, reach |-> {n} \cup a.reach \cup b.reach]
    [] OTHER -> [t |-> FALSE, d |-> d \cup StmtSets(s), bad |-> bad, reach |-> {n}]
Exact == Len(stk) = 1 /\ stk[1].q = prog => LET a == DA(prog, 2, {}) IN a.bad = F.bad /\ a.reach = F.reach /\ (a.t <=> F.out = {})
Emit == Len(stk) = 1 /\ stk[1].q = prog => PrintT("CASE " \o ToJson([typ |-> ".bzl", tree |-> File(".bzl", <<Def>>), lay |-> 0, cats |-> <<>>]))
====
