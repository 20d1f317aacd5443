---- MODULE MC_Macro ----
(* Deciding which functions are macros by walking the call graph depth first with a memory, in any order of the questions
   and of the calls.  The memory must never be wrong: what is remembered as a macro reaches a rule, what is remembered as
   none does not.  Walks stop at functions they have been to; what a walk has not found to be a macro by then is only
   remembered as none if the whole walk found nothing.  (With Eager it is remembered at once, which is wrong as soon as
   functions call each other in a circle.)  Graphs: two files with two symbols each. *)
EXTENDS Macro, TLC, Json, SequencesExt
CONSTANTS Eager, Small
VARIABLES proj, memo, visited, stack, asked
\* a symbol's definition: a rule, an alias, a function with calls, something loaded from the other file, or nothing
Def(calls) == [k |-> "def", to |-> calls]
Opts == {[k |-> "rule", to |-> {}]} \cup {[k |-> "alias", to |-> {x}] : x \in {"a", "b"}} \cup {Def(c) : c \in SUBSET {"a", "b"}} \cup {[k |-> "load", to |-> {x}] : x \in {"a", "b"}}
Leafs == {[k |-> "rule", to |-> {}], Def({"native.cc_library"}), Def({"native.glob", "a"}), [k |-> "none", to |-> {}], Def({"a", "native.cc_library"})}
FnTree(x, cs) == LET q == SetToSeq(cs) IN N("def", x, <<N("params", "", <<>>), None, N("block", "", IF q = <<>> THEN <<N("num", "0", <<>>)>> ELSE [i \in 1..Len(q) |-> CallN(IF HasPrefix(q[i], "native.") THEN N("dot", From(q[i], 8), <<Id("native")>>) ELSE Id(q[i]), <<>>)])>>)
DefTree(x, d, other) ==
  CASE d.k = "rule" -> Asg(x, CallN(Id("rule"), <<>>))
    [] d.k = "alias" -> Asg(x, Id(CHOOSE y \in d.to : TRUE))
    [] d.k = "load" -> N("load", other, <<N("sym", x, <<Id(CHOOSE y \in d.to : TRUE)>>)>>)
    [] d.k = "none" -> N("num", "1", <<>>)
    [] OTHER -> FnTree(x, d.to)
Tree1(a, b, other) == LET q == <<DefTree("a", a, other), DefTree("b", b, other)>> IN N("file", ".bzl", SelectSeq(q, LAMBDA s : s.t = "load") \o SelectSeq(q, LAMBDA s : s.t # "load"))
F(pkg, name, t) == [pkg |-> pkg, name |-> name, ok |-> TRUE, tree |-> t]
Syms == {<<"p", "x.bzl", "a">>, <<"p", "x.bzl", "b">>, <<"q", "y.bzl", "a">>, <<"q", "y.bzl", "b">>}
Some == IF Small THEN {o \in Opts : o.k # "rule"} ELSE Opts
Init == /\ \E a, b \in Some, c \in (IF Small THEN {o \in Opts : o.k \in {"def", "load"}} ELSE Opts), d \in Leafs :
             proj = <<F("p", "x.bzl", Tree1(a, b, "//q:y.bzl")), F("q", "y.bzl", Tree1(c, d, "//p:x.bzl"))>>
        /\ memo = [s \in Syms |-> "?"] /\ visited = {} /\ stack = <<>> /\ asked = {}
\* the memory about any symbol; those outside of the four are looked at directly
Known(s) == IF s \in Syms THEN memo[s] ELSE IF IsRule(proj, s) THEN "yes" ELSE IF Refers(proj, s) = {} THEN "no" ELSE "?"
Set(m, X, v) == [s \in DOMAIN m |-> IF s \in X /\ m[s] = "?" THEN v ELSE m[s]]
OnStack == {stack[i].s : i \in 1..Len(stack)}

Ask == /\ stack = <<>> /\ \E s \in Syms \ asked : asked' = asked \cup {s} /\ visited' = {s} /\ UNCHANGED proj
            /\ IF memo[s] # "?" THEN UNCHANGED <<memo, stack>>
               ELSE IF IsRule(proj, s) THEN memo' = Set(memo, {s}, "yes") /\ UNCHANGED stack
               ELSE UNCHANGED memo /\ stack' = <<[s |-> s, todo |-> Refers(proj, s)]>>
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Look == /\ stack # <<>> /\ Top.todo # {} /\ UNCHANGED <<proj, asked>>
        /\ \E c \in Top.todo :
             LET less == Append(Rest, [Top EXCEPT !.todo = @ \ {c}]) IN
             IF Known(c) = "yes" THEN memo' = Set(memo, OnStack, "yes") /\ stack' = <<>> /\ UNCHANGED visited
             ELSE IF Known(c) = "no" \/ c \in visited THEN stack' = less /\ UNCHANGED <<memo, visited>>
             ELSE IF IsRule(proj, c) THEN memo' = Set(memo, OnStack \cup {c}, "yes") /\ stack' = <<>> /\ UNCHANGED visited
             ELSE visited' = visited \cup {c} /\ stack' = Append(less, [s |-> c, todo |-> Refers(proj, c)]) /\ UNCHANGED memo
Back == /\ stack # <<>> /\ Top.todo = {} /\ UNCHANGED <<proj, asked, visited>>
        /\ stack' = Rest
        /\ memo' = IF Eager THEN Set(memo, {Top.s}, "no") ELSE IF Len(stack) = 1 THEN Set(memo, visited, "no") ELSE memo
Next == Ask \/ Look \/ Back
Right == \A s \in Syms : (memo[s] = "yes" => IsMacro(proj, s)) /\ (memo[s] = "no" => ~IsMacro(proj, s))
Decided == stack = <<>> => \A s \in asked : memo[s] # "?"
Emit == asked = {} => PrintT("CASE " \o ToJson([files |-> proj, lay |-> 0]))
====
