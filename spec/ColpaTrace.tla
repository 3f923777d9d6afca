----------------------------- MODULE ColpaTrace -----------------------------
(* Answers of the real solve_via_colpa judged by ColpaVerdict.                *)
EXTENDS Colpa, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, verdict
Init == tid \in 1..Len(Traces) /\ i = 0 /\ verdict = "ok"
Next == /\ verdict = "ok"
        /\ i < Len(Traces[tid].events)
        /\ verdict' = ColpaVerdict(Traces[tid].events[i + 1])
        /\ verdict' # "ok" => PrintT("BAD|" \o ToString(Traces[tid].id) \o "|" \o ToString(i + 1) \o "|colpa|" \o verdict')
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
