---- MODULE Indent ----
(* Lines to tokens: how indentation makes blocks.  A line is [ind, ts]: the number of spaces in front of it and its tokens;
   lines without tokens (blank, or only a comment) do not count. *)
EXTENDS Grammar
Bad0 == [ok |-> FALSE, ts |-> <<>>]
RECURSIVE Pops(_, _)
\* the stack without the blocks that end at a line indented by n
Pops(st, n) == IF st[Len(st)] > n THEN Pops(SubSeq(st, 1, Len(st) - 1), n) ELSE st
Out == [t |-> "out", v |-> ""]
In == [t |-> "in", v |-> ""]
Eol == [t |-> "nl", v |-> ""]
Outs(n) == [i \in 1..n |-> Out]
RECURSIVE Blocks(_, _)
Blocks(ls, st) ==
  IF ls = <<>> THEN [ok |-> TRUE, ts |-> Outs(Len(st) - 1)]
  ELSE IF ls[1].ts = <<>> THEN Blocks(Tail(ls), st)
  ELSE LET l == ls[1]
           st1 == Pops(st, l.ind)
           top == st1[Len(st1)]
           deeper == Len(st1) = Len(st) /\ l.ind > top
           st2 == IF deeper THEN Append(st, l.ind) ELSE st1
           r == Blocks(Tail(ls), st2)
       IN IF ~deeper /\ l.ind # top THEN Bad0   \* returns to no enclosing level
          ELSE IF ~r.ok THEN Bad0
          ELSE [ok |-> TRUE, ts |-> (IF deeper THEN <<In>> ELSE Outs(Len(st) - Len(st1))) \o l.ts \o <<Eol>> \o r.ts]
Parse(ls, lx) == LET b == Blocks(ls, <<0>>) IN IF b.ok THEN ParseFile(b.ts, lx) ELSE NotOk
====
