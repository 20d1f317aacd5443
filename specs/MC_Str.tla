---- MODULE MC_Str ----
(* Every short sequence of bytes as a literal, every short value.  Laws: what is written reads back; a literal
   denotes at most one thing, and raw and plain literals agree when there is no backslash. *)
EXTENDS StrLit, Json, TLC
CONSTANTS N, M
VARIABLES b, done
\* backslash, quotes, newline, an ordinary letter, letters and digits of escapes, a byte of a multibyte character
Sigma == {BS, DQ, SQ, NL, RR, 110, 120, 49, 56, 97, 206}
Sigma2 == {BS, DQ, NL, 97, 200, 7}
Starts == {<<DQ>>, <<SQ>>, <<DQ, DQ, DQ>>, <<SQ, SQ, SQ>>, <<RR, DQ>>, <<RR, SQ>>, <<RR, DQ, DQ, DQ>>, <<RR, SQ, SQ, SQ>>}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == done = FALSE /\ b \in {<<0, s, c>> : s \in Starts, c \in Seqs(Sigma, N)} \cup {<<1, <<>>, c>> : c \in Seqs(Sigma2, M)}
Next == ~done /\ done' = TRUE /\ UNCHANGED b
Quotes(s) == IF s[1] = RR THEN Tail(s) ELSE s
L0 == b[2] \o b[3] \o Quotes(b[2])
ValueLaw == b[1] = 1 => \A t \in BOOLEAN : LET q == Quote(b[3], t) IN Whole(q) /\ Triple(q) = t /\ Denote(q) = [ok |-> TRUE, v |-> b[3]]
LitLaw == b[1] = 0 /\ Whole(L0) =>
  /\ Triple(L0) = (Len(Quotes(b[2])) = 3) \/ b[3] = <<>> \/ Quo(L0) \in {b[3][i] : i \in 1..Len(b[3])}
  /\ ~(\E i \in 1..Len(b[3]) : b[3][i] = BS) => Denote(L0).ok
  /\ Denote(L0).ok => LET q == Quote(Denote(L0).v, Triple(L0)) IN Denote(q) = Denote(L0)
  /\ ~Raw(L0) => Whole(<<RR>> \o L0) /\ ((\A i \in 1..Len(L0) : L0[i] # BS) => Denote(<<RR>> \o L0) = Denote(L0))
Ctxs(l) == IF Len(l) % 2 = 0 THEN "asg" ELSE "arg"
Emit == done => IF b[1] = 1 THEN PrintT("CASE " \o ToJson([k |-> "val", b |-> b[3], ctx |-> "asg", ind |-> 4, depth |-> 1, triple |-> FALSE]))
                ELSE IF Whole(L0) \/ Open0(L0) THEN PrintT("CASE " \o ToJson([k |-> "lit", b |-> L0, ctx |-> Ctxs(L0), ind |-> 4, depth |-> 1, triple |-> FALSE])) ELSE TRUE
====
