---- MODULE T_Str ----
(* Conformance of the parser and the printer with the meaning of string literals. *)
EXTENDS StrLit, TraceCommon
VARIABLES h, done
\* in a triple quoted docstring of a function the indentation changes with that of the function; a blank behind a backslash is not judged there
Docstring(in) == in.ctx = "fdoc" /\ Triple(in.b)
Vague(in) == Docstring(in) /\ \E i \in 1..Len(in.b) : in.b[i] = BS /\ At(in.b, i + 1) = 32
Want(in) == IF in.k = "val" THEN [ok |-> TRUE, v |-> in.b] ELSE Denote(in.b)
\* a literal in single quotes, or with an escape that stands for itself, may be quoted anew before its lines are moved
Anew(in) == in.b[1] # 114 /\ (in.b[1] = 39 \/ \E i \in 1..Len(in.b) : in.b[i] = BS)
WantOut(in) == IF in.k = "lit" /\ Docstring(in) THEN Denote(Reindent(in.b, 4 * in.depth - in.ind * in.depth)) ELSE Want(in)
What(r) ==
  LET in == r.in o == r.obs IN
  IF r.st # "ok" THEN r.st
  ELSE IF in.k = "lit" /\ Open0(in.b) THEN (IF o.acc THEN "a literal that is not closed was accepted" ELSE "")
  ELSE IF in.k = "lit" /\ ~Whole(in.b) THEN ""
  ELSE IF ~Want(in).ok THEN (IF o.acc THEN "an escape that denotes nothing was accepted" ELSE "")
  ELSE IF ~o.acc THEN "the literal was rejected"
  ELSE IF o.val # Want(in).v THEN "read as another value"
  ELSE IF o.err2 # "" THEN "the formatted text does not parse"
  ELSE IF ~Whole(o.out) THEN "the formatted text holds no literal"
  ELSE IF in.k = "val" /\ Triple(o.out) # in.triple THEN "other quotes"
  ELSE IF ~Vague(in) /\ Denote(o.out) # WantOut(in) /\ ~(Docstring(in) /\ in.k = "lit" /\ Anew(in) /\ Denote(o.out).v \o <<34>> = Reindent(Want(in).v \o <<34>>, 4 * in.depth - in.ind * in.depth)) THEN "the formatted literal denotes another value"
  ELSE IF o.val2 # Denote(o.out).v THEN "read back as another value"
  ELSE IF ~o.fix THEN "formatting again changes the file"
  ELSE ""
Init == h \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ (What(Recs[h]) = "" \/ Bad(h, What(Recs[h])))
====
