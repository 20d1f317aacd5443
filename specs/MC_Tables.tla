---- MODULE MC_Tables ----
(* Design model of tables that the user changes: files are read one after the other, each of them entry by
   entry into the tables in effect (an adding file) or into empty ones (a replacing file), and the new tables
   take effect when the whole file has been read; a file that cannot be used changes nothing.
   Explored: every sequence of up to MaxLoads files of up to MaxEnts entries of Menu.
   Invariants: what results is what Custom.tla says (Take); entries a file names are in effect afterwards as
   given; an adding file leaves all others alone; after a replacing file there are no others; of an adding
   file the order of entries does not matter, and reading it again changes nothing; an adding file only
   formats differently what it names.  Every history is emitted with a source file that all entries act on. *)
EXTENDS Custom, Json
CONSTANTS MaxLoads, MaxEnts, Menu, Bads, Hows
VARIABLES loads, cur, tb, acc, todo, pc
vars == <<loads, cur, tb, acc, todo, pc>>
E(t, k, v) == [t |-> t, k |-> k, v |-> v]
Ents == <<E("IsLabelArg", "zeta", 1), E("IsLabelArg", "deps", 0), E("LabelDenylist", "r.deps", 1), E("IsSortableListArg", "zeta", 1),
          E("IsSortableListArg", "deps", 0), E("SortableDenylist", "r.srcs", 1), E("SortableAllowlist", "r.args", 1), E("NamePriority", "zeta", -98),
          E("NamePriority", "r.deps", -97), E("NamePriority", "name", 5), E("StripLabelLeadingSlashes", "", 1), E("ShortenAbsoluteLabelsToRelative", "", 1),
          E("IsListArg", "zeta", 1), E("IsListArg", "deps", 0), E("SortableAllowlist", "cc_library.copts", 1), E("LabelDenylist", "package_group.includes", 0)>>
Sets(n) == UNION {{{Ents[i], Ents[j]} : j \in {j \in Menu : j > i}} : i \in IF n >= 2 THEN Menu ELSE {}} \cup {{Ents[i]} : i \in Menu} \cup {{}}
RECURSIVE Ordered(_)
Ordered(m) == IF m = {} THEN <<>> ELSE LET e == CHOOSE e \in m : TRUE IN <<e>> \o Ordered(m \ {e})
Files(how, n) == {[merge |-> m, bad |-> b, ents |-> Ordered(s), up |-> 0] : m \in BOOLEAN, b \in Bads, s \in Sets(MaxEnts)}
Src == File("BUILD", <<
  Call("r", <<Asg("zeta", Strs(<<"//b:b", "//x:c", "a">>)), Asg("deps", Strs(<<"//x:z", "//a/a:a", ":c">>)), Asg("srcs", Strs(<<"y", "b">>)),
    Asg("args", Strs(<<"d", "c">>)), Asg("name", S("n"))>>),
  Call("cc_library", <<Asg("name", S("//n:n")), Asg("copts", Strs(<<"-b", "-a">>)), Asg("deps", Strs(<<"@r-1//b:b", "@q//:q", "//x">>))>>),
  Call("package_group", <<Asg("name", S("g")), Asg("includes", Strs(<<"//b:b", "//a:c">>))>>) >>)
Empty == [label |-> {}, deny |-> {}, sortable |-> {}, sdeny |-> {}, sallow |-> {}, prio |-> NoMap, list |-> NoMap, strip |-> FALSE, shorten |-> FALSE, pkg |-> ""]
Put(set, k, v) == IF v = 1 THEN set \cup {k} ELSE set \ {k}
Set1(t, e) ==
  CASE e.t = "IsLabelArg" -> [t EXCEPT !.label = Put(@, e.k, e.v)]
    [] e.t = "LabelDenylist" -> [t EXCEPT !.deny = Put(@, e.k, e.v)]
    [] e.t = "IsSortableListArg" -> [t EXCEPT !.sortable = Put(@, e.k, e.v)]
    [] e.t = "SortableDenylist" -> [t EXCEPT !.sdeny = Put(@, e.k, e.v)]
    [] e.t = "SortableAllowlist" -> [t EXCEPT !.sallow = Put(@, e.k, e.v)]
    [] e.t = "NamePriority" -> [t EXCEPT !.prio = (e.k :> e.v) @@ @]
    [] e.t = "IsListArg" -> [t EXCEPT !.list = (e.k :> e.v) @@ @]
    [] e.t = "StripLabelLeadingSlashes" -> [t EXCEPT !.strip = @ \/ e.v = 1]
    [] OTHER -> [t EXCEPT !.shorten = @ \/ e.v = 1]
Init == loads = <<>> /\ cur = <<>> /\ tb = BuiltIn /\ acc = BuiltIn /\ todo = {} /\ pc = "idle"
Open == /\ pc = "idle" /\ Len(loads) < MaxLoads /\ pc' = "read"
        /\ \E l \in Files("api", 0) :
             /\ cur' = <<l>> /\ todo' = {l.ents[i] : i \in 1..Len(l.ents)} /\ acc' = (IF l.merge THEN tb ELSE Empty)
        /\ UNCHANGED <<loads, tb>>
Read == /\ pc = "read" /\ \E e \in todo : acc' = Set1(acc, e) /\ todo' = todo \ {e}
        /\ UNCHANGED <<loads, cur, tb, pc>>
Done == /\ pc = "read" /\ todo = {} /\ pc' = "check"
        /\ loads' = Append(loads, cur[1]) /\ acc' = tb /\ tb' = (IF cur[1].bad = "" THEN acc ELSE tb)
        /\ UNCHANGED <<cur, todo>>
Again == pc = "check" /\ pc' = "idle" /\ cur' = <<>> /\ acc' = tb /\ UNCHANGED <<loads, tb, todo>>
Next == Open \/ Read \/ Done \/ Again
Here == loads[Len(loads)]
Was == acc   \* in "check", what was in effect before
At2(t) == [t EXCEPT !.pkg = "x"]
Follows == pc = "check" => tb = Take(Was, Here) /\ tb = TakeAll(BuiltIn, loads)
Holds(t, e) ==
  CASE e.t = "IsLabelArg" -> (e.k \in t.label) = (e.v = 1) [] e.t = "LabelDenylist" -> (e.k \in t.deny) = (e.v = 1)
    [] e.t = "IsSortableListArg" -> (e.k \in t.sortable) = (e.v = 1) [] e.t = "SortableDenylist" -> (e.k \in t.sdeny) = (e.v = 1)
    [] e.t = "SortableAllowlist" -> (e.k \in t.sallow) = (e.v = 1) [] e.t = "NamePriority" -> e.k \in DOMAIN t.prio /\ t.prio[e.k] = e.v
    [] e.t = "IsListArg" -> e.k \in DOMAIN t.list /\ t.list[e.k] = e.v [] OTHER -> TRUE
Given == (pc = "check" /\ Usable(Here)) => \A i \in 1..Len(Here.ents) : Holds(tb, Here.ents[i])
Named(t) == {Here.ents[i].k : i \in {i \in 1..Len(Here.ents) : Here.ents[i].t = t}}
\* entries that differ from before
Diff(a, b) == (a \ b) \cup (b \ a)
Frame == (pc = "check" /\ Usable(Here) /\ Here.merge) =>
  /\ Diff(tb.label, Was.label) \subseteq Named("IsLabelArg") /\ Diff(tb.deny, Was.deny) \subseteq Named("LabelDenylist")
  /\ Diff(tb.sortable, Was.sortable) \subseteq Named("IsSortableListArg") /\ Diff(tb.sdeny, Was.sdeny) \subseteq Named("SortableDenylist")
  /\ Diff(tb.sallow, Was.sallow) \subseteq Named("SortableAllowlist")
  /\ DOMAIN Was.prio \subseteq DOMAIN tb.prio /\ \A k \in DOMAIN tb.prio \ Named("NamePriority") : tb.prio[k] = Was.prio[k]
  /\ (Was.strip => tb.strip) /\ (Was.shorten => tb.shorten)
Only == (pc = "check" /\ Usable(Here) /\ ~Here.merge) =>
  /\ tb.label \subseteq Named("IsLabelArg") /\ tb.sortable \subseteq Named("IsSortableListArg") /\ DOMAIN tb.prio = Named("NamePriority")
  /\ tb.deny \subseteq Named("LabelDenylist") /\ tb.sdeny \subseteq Named("SortableDenylist") /\ tb.sallow \subseteq Named("SortableAllowlist") /\ DOMAIN tb.list = Named("IsListArg")
Bad0 == (pc = "check" /\ ~Usable(Here)) => tb = Was
Twice == (pc = "check" /\ Here.merge) => Take(tb, Here) = tb
\* with given tables a formatted file stays as it is
Settled == pc = "check" => LET t == At2(tb) c == CanonTb(Src, t) IN CanonTb(c, t) = c
\* on the command line there is at most one file of each kind, and the replacing one is read first
Line == Len(loads) = 1 \/ (Len(loads) = 2 /\ ~loads[1].merge /\ loads[2].merge)
Emit == pc = "check" => \A how \in (IF Line THEN Hows ELSE {"api"}), sw \in BOOLEAN :
          \/ sw /\ (how # "flags" \/ Len(loads) # 2)
          \/ PrintT("CASE " \o ToJson([how |-> how, path |-> "x/BUILD", tree |-> IF how = "buildozer" THEN File("BUILD", <<>>) ELSE Src, lay |-> 1, loads |-> loads,
                attr |-> IF how # "buildozer" THEN "" ELSE "zeta", swap |-> sw]))
====
