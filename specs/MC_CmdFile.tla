---- MODULE MC_CmdFile ----
(* The text of a command file.  Explored: every sequence of up to Max pieces, cut from commands, separators,
   escapes, comments and targets.  Invariants: splitting undoes quoting; blank lines, comments and the space around
   a line do not count; lines are independent of each other; the labels of the command line stand where * does. *)
EXTENDS Run, Json, TLC, FiniteSets
CONSTANTS Max, Bits
VARIABLES q
T(pkg, rules) == [pkg |-> pkg, fname |-> "BUILD", tree |-> File("BUILD", rules), raw |-> ""]
Rl(n) == Call("cc_library", <<Asg("name", S(n)), Asg("deps", Strs(<<"a", "b c">>))>>)
Files == <<T("", <<Rl("r1"), Rl("r2")>>), T("p", <<Rl("r1")>>)>>
Text0 == Join(q, "")
Init == q \in {<<>>}
Next == Len(q) < Max /\ \E p \in Bits : q' = Append(q, p)
RECURSIVE Quote(_, _)
Quote(s, c) == IF s = "" THEN "" ELSE (IF Chr(s, 1) = c THEN "\\" \o c ELSE Chr(s, 1)) \o Quote(From(s, 2), c)
NoBS(s) == ~\E i \in 1..Len(s) : Chr(s, i) = "\\"
E(t) == Entries("file", t, <<"//p:r1">>)
Splits == /\ (NoBS(Text0) /\ Text0 # "") => Tokens(Quote(Text0, " ")) = <<Text0>>
          /\ NoBS(Text0) => Fields(Quote(Text0, "|")) = <<Text0>>
Wellformed(t) == \A l \in {LinesOf(t)[i] : i \in 1..Len(LinesOf(t))} : LET f == Star(Fields(l), <<"//p:r1">>) IN \A i \in 1..Len(f) : Tokens(f[i]) # <<>>
Blank == Wellformed(Text0) => /\ E(Text0 \o "\n\n#x|y\n") = E(Text0) /\ E("  " \o Text0) = E(Text0) /\ E(Text0 \o "\r") = E(Text0)
Lines == \A i \in 1..Len(q) : (q[i] = "\n" /\ Wellformed(Text0)) => E(Text0) = E(Join(SubSeq(q, 1, i - 1), "")) \o E(Join(SubSeq(q, i + 1, Len(q)), ""))
\* only texts whose fields are commands with the right number of words or plain labels are run
Plain(s) == s \in {"//:r1", "//p:r1", "//:r2"}
Arity(c) == CASE c = "add" -> {2, 3, 4} [] c = "set" -> {2, 3} [] c = "delete" -> {0} [] c = "print" -> {0, 1, 2} [] OTHER -> {}
Sound == LET ls == LinesOf(Text0) IN
  /\ ls # <<>>
  /\ \A i \in 1..Len(ls) : LET f == Fields(ls[i]) IN \A j \in 1..Len(f) :
       \/ Plain(f[j]) \/ (f[j] = "*" /\ \A k \in 1..Len(f) : ~Plain(f[k]))
       \/ (Tokens(f[j]) # <<>> /\ Tokens(f[j])[1] \in Commands /\ Len(Tokens(f[j])) - 1 \in Arity(Tokens(f[j])[1]) /\ \A w \in 2..Len(Tokens(f[j])) : \A ch \in 1..Len(Tokens(f[j])[w]) : Chr(Tokens(f[j])[w], ch) \notin {":", "/", "#", "\""})
  /\ \E i \in 1..Len(ls) : \E j \in 1..Len(Fields(ls[i])) : Plain(Fields(ls[i])[j]) \/ Fields(ls[i])[j] = "*"
Emit == Sound => \A n \in {0, 1} : PrintT("CASE " \o ToJson([files |-> Files, lay |-> 0, mode |-> "file", text |-> Text0, args |-> IF n = 0 THEN <<"//p:r1">> ELSE <<"//p:r1", "//:r2">>, keep |-> FALSE, stdout |-> FALSE, types |-> <<>>, cwd |-> "", root |-> FALSE, numio |-> 1]))
====
