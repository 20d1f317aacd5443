---- MODULE TraceCommon ----
(* Reading recorded observations and reporting a mismatch.  One behaviour per recorded history:
   Init picks the history, Next consumes it.  A mismatch is reported by printing a BAD line (all of
   them are wanted, not just the first) and the run goes on; the orchestrator counts the states, so
   a history that was not consumed to its end is noticed. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.OBS)
NRecs == Len(Recs)
Bad(h, what) == PrintT("BAD " \o ToJson([h |-> h, what |-> what]))
BadWant(h, what, want) == PrintT("BAD " \o ToJson([h |-> h, what |-> what, want |-> want]))
====
