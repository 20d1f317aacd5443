---- MODULE T_Buildifier ----
(* Conformance of whole runs of buildifier, one after the other over the same files. *)
EXTENDS Buildifier, TraceCommon
VARIABLES h, done
LineOk(e, l) == HasPrefix(l, e.p) /\ (e.has = "" \/ Contains(l, e.has))
LinesOk(es, ls) == Len(es) = Len(ls) /\ \A i \in 1..Len(es) : LineOk(es[i], ls[i])
WantJson(diags) == [i \in 1..Len(diags) |-> [name |-> diags[i].name, formatted |-> diags[i].formatted, valid |-> diags[i].valid, warnings |-> diags[i].warnings]]
OutOk(w, o) ==
  IF w.kind \in {"usage", "stat"} THEN o.out = ""
  ELSE IF w.kind = "version" THEN HasPrefix(o.out, "buildifier version: ")
  ELSE IF w.kind = "help" THEN HasPrefix(o.out, "usage: buildifier")
  ELSE IF w.kind = "example" THEN HasPrefix(o.out, "{") /\ o.jsonok
  ELSE IF w.s.o["format"] = "json" THEN o.jsonok /\ o.indented = (w.s.o["v"] = "true") /\ o.success = Success(w.o.diags) /\ o.diags = WantJson(w.o.diags)
  ELSE IF w.s.o["format"] = "text" THEN LinesOk(DiagLines(w.o.diags), o.outlines)
  ELSE IF w.df.cmd = "" /\ Mode(w.s) = "diff" THEN (o.out # "") = (w.o.out # "")
  ELSE o.out = w.o.out \o (IF w.df.cmd = ":" THEN "" ELSE PairsOut(w.o.pairs))
WantErr(w) == w.o.err \o (IF w.s.o["format"] = "" THEN DiagLines(w.o.diags) ELSE <<>>)
              \o (IF w.df.multi /\ w.o.pairs # <<>> /\ FailsIfDifferent(w.df.cmd) THEN <<E("exit status 1", "")>> ELSE <<>>)
ErrOk(w, o) == IF w.kind \in {"usage", "stat"} THEN o.err # <<>> ELSE IF w.kind # "run" THEN o.err = <<>> ELSE LinesOk(WantErr(w), o.err)
FilesOk(w, o) == \A i \in 1..Len(w.o.disk) : w.o.disk[i].kind # "file" \/ o.files[i].text = TextOf(w.o.disk[i].q)
Touched(disk, w, o) == \E i \in 1..Len(disk) : o.files[i].touched # (disk[i].kind = "file" /\ disk[i].q # w.o.disk[i].q)
Want(w) == [kind |-> w.kind, codes |-> Statuses(w), out |-> w.o.out, err |-> IF w.kind = "run" THEN WantErr(w) ELSE <<>>, diags |-> w.o.diags, disk |-> w.o.disk]
Fine(w, o, disk) == /\ o.code \in Statuses(w) /\ FilesOk(w, o) /\ ~Touched(disk, w, o) /\ OutOk(w, o) /\ ErrOk(w, o) /\ o.leftover = ""
What(w, o, disk) ==
  IF ~FilesOk(w, o) THEN "a file is not what it should be"
  ELSE IF Touched(disk, w, o) THEN "a file was written that did not change, or not written"
  ELSE IF o.code \notin Statuses(w) THEN "exit status " \o ToString(o.code)
  ELSE IF ~OutOk(w, o) THEN "wrong standard output"
  ELSE IF ~ErrOk(w, o) THEN "wrong standard error"
  ELSE "a file was left behind: " \o o.leftover
RECURSIVE Judge(_, _, _)
Judge(r, k, disk) ==
  IF k > Len(r.in.runs) THEN TRUE
  ELSE LET w == Run(r.in, disk, r.in.runs[k])
           o == r.obs.runs[k]
       IN IF Fine(w, o, disk) THEN Judge(r, k + 1, w.o.disk)
          ELSE BadWant(h, What(w, o, disk), ToString(Want(w)))
Init == h \in 1..NRecs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED h
        /\ LET r == Recs[h] IN IF r.st # "ok" THEN Bad(h, r.st)
           ELSE IF \E i \in 1..Len(r.in.files) : r.in.files[i].kind = "file" /\ r.obs.init[i] # TextOf(r.in.files[i].q) THEN Bad(h, "the driver wrote something else")
           ELSE Judge(r, 1, r.in.files)
====
