---- MODULE MC_Indent ----
(* Every short sequence of lines (block headers, simple statements, statements behind a header, comments, blank lines)
   at every indentation.  Laws: an accepted file has exactly one reading, in which the statements of a block are indented
   alike and further than the header; comments and blank lines at any column change nothing; shifting all blocks by
   another amount changes nothing. *)
EXTENDS Indent, Json, TLC
CONSTANTS Max, Inds, Kinds
VARIABLES ls, done
Op(x) == [t |-> "op", v |-> x]
Ident(x) == [t |-> "id", v |-> x]
Colon == Op(":")
Toks(k) == CASE k = "x" -> <<Ident("x")>> [] k = "y" -> <<Ident("y"), Op(";"), Op("pass")>> [] k = "if" -> <<Op("if"), Ident("c"), Colon>> [] k = "else" -> <<Op("else"), Colon>>
             [] k = "elif" -> <<Op("elif"), Ident("d"), Colon>> [] k = "for" -> <<Op("for"), Ident("i"), Op("in"), Ident("q"), Colon>>
             [] k = "def" -> <<Op("def"), Ident("f"), Op("("), Op(")"), Colon>> [] k = "ifx" -> <<Op("if"), Ident("c"), Colon, Ident("z")>> [] OTHER -> <<>>
Line(k, i) == [ind |-> i, ts |-> Toks(k), com |-> k = "com", tail |-> FALSE]
Lines == {Line(k, i) : k \in Kinds, i \in Inds}
Init == ls = <<>> /\ done = FALSE
Add == ~done /\ Len(ls) < Max /\ \E l \in Lines : ls' = Append(ls, l) /\ UNCHANGED done
Next == Add
R == Parse(ls, FALSE)
Code == SelectSeq(ls, LAMBDA l : l.ts # <<>>)
Quiet == Parse(Code, FALSE) = R
Shifted == Parse([i \in 1..Len(ls) |-> [ls[i] EXCEPT !.ind = @ * 3]], FALSE) = R
Lenient == R.ok => Parse(ls, TRUE) = R
Deep == R.ok => \A i \in 1..Len(Code) - 1 : (Code[i + 1].ind > Code[i].ind) <=> Code[i].ts[Len(Code[i].ts)] = Colon
Emit == Len(ls) = Max => PrintT("CASE " \o ToJson([lines |-> ls, ts |-> <<>>, ws |-> 0, eof |-> 0]))
====
