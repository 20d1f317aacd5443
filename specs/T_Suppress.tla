---- MODULE T_Suppress ----
(* Conformance of suppression comments. *)
EXTENDS Suppress, TraceCommon
VARIABLES h, done
Bag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
SeqHas(q, x) == \E i \in 1..Len(q) : q[i] = x
Short(q) == [i \in 1..Len(q) |-> [cat |-> q[i].cat, line |-> q[i].line]]
WantFinds(r) == SelectSeq(r.obs.raw, LAMBDA f : SeqHas(r.in.cats, f.cat) /\ ~Silenced(r.obs.nodes, f.cat, f.line))
WantLeft(r) == SelectSeq(r.obs.raw, LAMBDA f : SeqHas(r.in.fix, f.cat) /\ Silenced(r.obs.nodes, f.cat, f.line))
Count(q, cat) == Len(SelectSeq(q, LAMBDA f : f.cat = cat))
Clash(r) == \E i \in 1..Len(r.obs.raw) : r.obs.raw[i].cat = "load" /\ HasPrefix(r.obs.raw[i].msg, "A different")
What(r) ==
  IF r.st # "ok" THEN r.st
  ELSE LET o == r.obs IN
  IF o.err # "" THEN ""
  ELSE IF \E i \in 1..Len(o.nodes) : o.nodes[i].self.t # "none" /\ Strip(o.nodes[i].self) # Strip(o.nodes[i].text) THEN "the lines of a node"
  ELSE IF \E i \in 1..Len(o.got) - 1 : o.got[i].line > o.got[i + 1].line THEN "findings out of order"
  ELSE IF Bag(o.got) # Bag(WantFinds(r)) THEN "findings"
  ELSE IF r.in.has /\ Bag(Short(o.got)) # Bag(r.in.exp) THEN "findings of the model"
  ELSE IF o.bad # "" THEN "the fixed file does not parse"
  ELSE IF ~Clash(r) /\ \E i \in 1..Len(r.in.fix) : Count(o.left, r.in.fix[i]) # Count(WantLeft(r), r.in.fix[i]) THEN "fixing"
  ELSE ""
Want(r) == IF r.st # "ok" \/ r.obs.err # "" THEN "" ELSE ToString(<<Short(WantFinds(r)), Short(WantLeft(r)), IF r.in.has THEN r.in.exp ELSE <<>>>>)
Init == h \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ (LET w == What(Recs[h]) IN w = "" \/ BadWant(h, w, Want(Recs[h])))
====
