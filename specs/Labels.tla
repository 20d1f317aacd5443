---- MODULE Labels ----
(* The label algebra.  A label denotes a target: repository, package, name.
   Syntax (the well-formed spellings):
       [@|@@][repo]//pkg[:target]     absolute;  without a target the last package segment names it
       @repo                          the target `repo` of the root package of that repository
       :target   target               relative to a package
   Denotation is a function of the syntactic components (Denote); ParseAbs/ParseRel are the
   string-level reading, and MC_Labels checks that the two agree on every rendered label. *)
EXTENDS Str, Integers, Sequences

Lbl(r, p, t) == [repo |-> r, pkg |-> p, target |-> t]

Base(p) == LET i == LastIndex(p, "/") IN IF i = 0 THEN p ELSE From(p, i + 1)

IsAbs(s) == HasPrefix(s, "@") \/ HasPrefix(s, "//")

\* Well-formed package path, target name, repository name.
IsPkg(p) == p = "" \/ (~HasPrefix(p, "/") /\ ~HasSuffix(p, "/") /\ ~Contains(p, "//") /\ ~Contains(p, ":") /\ ~Contains(p, "@"))
IsTarget(t) == t # "" /\ ~Contains(t, ":") /\ ~HasPrefix(t, "/") /\ ~HasSuffix(t, "/") /\ ~Contains(t, "//") /\ ~Contains(t, "@")
IsRepo(r) == ~Contains(r, "/") /\ ~Contains(r, ":") /\ ~Contains(r, "@")

AbsBody(repo, s) ==  \* s starts with "//"
  LET b == From(s, 3)
      i == Index(b, ":")
  IN IF i = 0 THEN Lbl(repo, b, Base(b)) ELSE Lbl(repo, Upto(b, i - 1), From(b, i + 1))

ParseAbs(s) ==
  IF HasPrefix(s, "@")
  THEN LET t == TrimLeft(s, "@")
           i == Index(t, "//")
       IN IF i = 0 THEN Lbl(t, "", t) ELSE AbsBody(Upto(t, i - 1), From(t, i))
  ELSE AbsBody("", s)

ParseRel(s, pkg) == IF IsAbs(s) THEN ParseAbs(s) ELSE Lbl("", pkg, TrimPrefix(s, ":"))

\* s is one of the well-formed absolute spellings
WFAbs(s) ==
  /\ IsAbs(s)
  /\ ~HasPrefix(s, "@@@")
  /\ LET l == ParseAbs(s) IN IsPkg(l.pkg) /\ IsTarget(l.target) /\ IsRepo(l.repo)
  /\ (HasPrefix(s, "@") /\ ~Contains(s, "//")) => TrimLeft(s, "@") # ""
  /\ LET b == TrimLeft(s, "@") IN Contains(b, "//") => (Index(b, ":") = 0 \/ Index(b, ":") > Index(b, "//"))
WFRel(s) == IsTarget(TrimPrefix(s, ":")) /\ ~IsAbs(s)
WF(s) == WFAbs(s) \/ WFRel(s)

\* Canonical spelling of a target.
Format(l) ==
  IF l.repo # "" /\ l.pkg = "" /\ l.target = l.repo THEN "@" \o l.repo
  ELSE (IF l.repo = "" THEN "" ELSE "@" \o l.repo) \o "//" \o l.pkg
       \o (IF l.target = Base(l.pkg) THEN "" ELSE ":" \o l.target)
FormatRel(l, pkg) == IF l.repo = "" /\ l.pkg = pkg THEN ":" \o l.target ELSE Format(l)
Shorten(s, pkg) == IF IsAbs(s) THEN FormatRel(ParseAbs(s), pkg) ELSE s
LabelEq(a, b, pkg) == ParseRel(a, pkg) = ParseRel(b, pkg)

(* ---- syntactic components, for enumeration and as the reference denotation ---- *)
Render(c) ==
  CASE c.form = "rel"   -> c.colon \o c.target
    [] c.form = "repo"  -> c.at \o c.repo
    [] c.form = "abs"   -> c.at \o c.repo \o "//" \o c.pkg
    [] c.form = "absT"  -> c.at \o c.repo \o "//" \o c.pkg \o ":" \o c.target
Denote(c, pkg) ==
  CASE c.form = "rel"   -> Lbl("", pkg, c.target)
    [] c.form = "repo"  -> Lbl(c.repo, "", c.repo)
    [] c.form = "abs"   -> Lbl(c.repo, c.pkg, Base(c.pkg))
    [] c.form = "absT"  -> Lbl(c.repo, c.pkg, c.target)
====
