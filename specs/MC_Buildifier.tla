---- MODULE MC_Buildifier ----
(* Design model of a run of buildifier over two files.  A reader reads the files ahead of time, any number of
   them before the first one is processed; they are processed, and written, one after the other.  Explored:
   every combination of mode, lint mode, format, verbosity and diff command with every state of the files and
   every interleaving of the reader.  Invariants: what is documented about a run. *)
EXTENDS Buildifier, Json
CONSTANTS Contents, Modes, Lints, Formats, Diffs
SmallContents == {<<"d">>, <<"e", "p">>, <<"bad">>}
BigContents == {<<"d">>, <<"b">>, <<"p">>, <<"e", "p", "k00">>, <<"bad">>}
VARIABLES in, run, s, disk, buf, i, o
vars == <<in, run, s, disk, buf, i, o>>
KV(n, v) == [n |-> n, v |-> v, f |-> 0]
Opt(n, v) == IF v = "" THEN <<>> ELSE <<KV(n, v)>>
NoEnv == [has |-> FALSE, config |-> "", diff |-> "", multi |-> ""]
Kinds == {"file", "ro", "gone"}
FilesOf(q, kinds) == Cat2([j \in 1..2 |-> IF kinds[j] = "gone" THEN <<>> ELSE <<[path |-> <<"BUILD", "a.bzl">>[j], kind |-> "file", q |-> q[j], ro |-> kinds[j] = "ro"]>>])
Args == {<<>>, <<"BUILD", "a.bzl">>, <<"a.bzl", "BUILD">>, <<"BUILD">>}
Flags(m, l, f, d, v) == (IF m = "d" THEN <<KV("d", "true")>> ELSE Opt("mode", m)) \o Opt("lint", l) \o Opt("format", f)
                        \o (IF v THEN <<KV("v", "true")>> ELSE <<>>) \o (IF d = "" THEN <<>> ELSE Opt("diff_command", Upto(d, 3))) \o (IF Len(d) > 3 THEN <<KV("multi_diff", "true")>> ELSE <<>>)
Init == \E q \in [1..2 -> Contents], kinds \in [1..2 -> Kinds], m \in Modes, l \in Lints, f \in Formats, v \in BOOLEAN, a \in Args, d \in Diffs :
          /\ (m \notin {"d", "diff"} => d = "vd0") /\ (\A j \in 1..2 : kinds[j] = "gone" => q[j] = CHOOSE x \in Contents : TRUE)
          /\ (a = <<"BUILD">> => kinds[2] = "file")
          /\ run = [flags |-> Flags(m, l, f, IF m \in {"d", "diff"} THEN d ELSE "", v), args |-> a, stdin |-> q[1], env |-> NoEnv]
          /\ in = [files |-> FilesOf(q, kinds), cfgs |-> <<>>, cwd |-> "", runs |-> <<>>]
          /\ s = Settings(run.flags, <<>>) /\ disk = in.files /\ buf = <<>> /\ i = 1 /\ o = Outcome({}, "", <<>>, <<>>, <<>>, in.files)
Ok == ~Refused(s, Len(run.args))
Df == DiffOf(s, run.env)
N == IF FromStdin(run.args) THEN 0 ELSE Len(run.args)
Read == Ok /\ Len(buf) < N /\ buf' = Append(buf, FileFor(disk, "", run.args[Len(buf) + 1])) /\ UNCHANGED <<in, run, s, disk, i, o>>
Work == /\ Ok /\ i <= Len(buf)
        /\ LET r == Process(buf[i], s, Df, FALSE, N > 1) IN disk' = Write(disk, "", run.args[i], r.new) /\ o' = Merge(o, r, disk')
        /\ i' = i + 1 /\ UNCHANGED <<in, run, s, buf>>
Next == Read \/ Work
Finished == i = N + 1 /\ N > 0 /\ Ok
\* however far the reader is ahead, the outcome is that of processing the files one by one
Sequential == Finished => o = Run(in, in.files, run).o
\* files are written in fix mode only, never when they cannot be parsed or written, never when they are fine
FileKept == \A j \in 1..Len(disk) : disk[j].q # in.files[j].q => (Mode(s) = "fix" /\ Valid(in.files[j].q) /\ ~in.files[j].ro /\ \E k \in 1..N : run.args[k] = disk[j].path)
NothingRefused == ~Ok => disk = in.files /\ Run(in, disk, run).o.codes = {2}
Checks(d, flags) == Run(in, d, [run EXCEPT !.flags = flags])
\* a clean exit of the checking mode means that there is nothing to do
CleanMeansClean == (Finished /\ Mode(s) = "check" /\ o.codes = {}) => \A j \in 1..N : LET f == FileFor(disk, "", run.args[j]) IN f.kind = "file" /\ Valid(f.q) /\ Fmt(f.q, FileType(f.path), s) = f.q
\* after a run that fixes, there is nothing left to format, and a second run writes nothing
Fixed == (Finished /\ Mode(s) = "fix") =>
            /\ \A j \in 1..N : LET f == FileFor(disk, "", run.args[j]) IN (f.kind = "file" /\ Valid(f.q) /\ ~f.ro) => Fmt(f.q, FileType(f.path), s) = f.q
            /\ Run(in, disk, run).o.disk = disk
            /\ Checks(disk, <<KV("mode", "check")>>).o.codes \subseteq {1, 3} \cup (IF \E j \in 1..Len(disk) : disk[j].ro THEN {4} ELSE {})
\* fixing findings leaves only those that cannot be fixed
LintFixed == (Finished /\ Lint(s) = "fix") => \A j \in 1..N : LET f == FileFor(disk, "", run.args[j]) IN
                (f.kind = "file" /\ Valid(f.q) /\ ~f.ro) => \A k \in 1..Len(Finds(f.q, FileType(f.path), Warnings(s).cats)) : ~Finds(f.q, FileType(f.path), Warnings(s).cats)[k].fix
\* a file that cannot be read or parsed does not stop the others
Others == Finished => Len(o.diags) = Cardinality({j \in 1..N : FileFor(in.files, "", run.args[j]).kind = "file"})
Emit == (i = 1 /\ buf = <<>>) => PrintT("CASE " \o ToJson([in EXCEPT !.runs = <<run, run>>]))
====
