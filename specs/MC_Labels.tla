---- MODULE MC_Labels ----
(* Exhaustive exploration of the label algebra: every label over small components, every pair, every
   package.  State = a spelling being rewritten by the label operations; invariants = the laws.
   Every explored (label, package) and (label, label, package) is emitted as a conformance case. *)
EXTENDS Labels, TLC, Json, FiniteSets
CONSTANTS Pkgs, Targets, Repos
Comps ==
     [form : {"rel"}, colon : {"", ":"}, target : Targets]
  \cup [form : {"repo"}, at : {"@", "@@"}, repo : Repos \ {""}]
  \cup {c \in [form : {"abs"}, at : {"", "@", "@@"}, repo : Repos, pkg : Pkgs \ {""}] : (c.at = "") => (c.repo = "")}
  \cup {c \in [form : {"absT"}, at : {"", "@", "@@"}, repo : Repos, pkg : Pkgs, target : Targets] : (c.at = "") => (c.repo = "")}
VARIABLES c, pkg, s, n
Init == c \in Comps /\ pkg \in Pkgs /\ s = Render(c) /\ n = 0
\* the rewriting operations a tool applies to a label
Next == /\ n < 2 /\ n' = n + 1 /\ UNCHANGED <<c, pkg>>
        /\ \/ s' = Shorten(s, pkg)
           \/ s' = Format(ParseRel(s, pkg))
           \/ s' = FormatRel(ParseRel(s, pkg), pkg)
Emit == n = 0 => PrintT("CASE " \o ToJson([k |-> "one", s |-> s, pkg |-> pkg]))
\* rewriting never changes the denoted target
Denotation == WF(s) /\ ParseRel(s, pkg) = Denote(c, pkg)
Idempotent == Shorten(Shorten(s, pkg), pkg) = Shorten(s, pkg)
NotLonger == Len(Shorten(s, pkg)) <= Len(s)
FormatRoundTrip == ParseAbs(Format(ParseRel(s, pkg))) = ParseRel(s, pkg)
\* canonical form is unique: two spellings are equal iff their canonical forms coincide
Canonical == \A d \in Comps : (Denote(d, pkg) = Denote(c, pkg)) <=> LabelEq(s, Render(d), pkg)
====
