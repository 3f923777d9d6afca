---------------------------- MODULE StoreTrace ----------------------------
(* Traces with files: events of HamTrace (edits, notation, copies, filters) and
   of Store.  Event fields in addition: fs, the files observed after the event. *)
EXTENDS Commands

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, heap, aux, fs, verdict
vars == <<tid, i, heap, aux, fs, verdict>>

Observed(hp, e) ==
    LET bad == {k \in DOMAIN e.obs : StateVerdict(hp[e.obs[k].o], e.obs[k].s) # "ok"}
    IN IF bad # {} THEN LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                        IN (IF e.obs[k].o = e.o THEN "" ELSE "other object: ") \o StateVerdict(hp[e.obs[k].o], e.obs[k].s)
       ELSE "ok"

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ heap = <<EmptyHam(AtomTable(Traces[tid]), MNum(Traces[tid].cell), Traces[tid].atoms)>>
        /\ aux = <<>>
        /\ fs = <<>>
        /\ verdict = "ok"

Next == /\ verdict = "ok"
        /\ i < Len(Traces[tid].events)
        /\ LET e == Traces[tid].events[i + 1]
               st == e.op \in StoreOps \cup CommandOps
               s == TLCEval(IF st THEN CommandStep(heap, fs, e) ELSE Step(heap, aux, e))
               hp == IF st THEN heap \o s.new ELSE s.heap
               files == IF st THEN s.fs ELSE fs
               v == IF ~ResMatch(e.res, s.res) THEN "outcome: expected " \o s.res \o " got " \o e.res
                    ELSE IF s.v # "ok" THEN s.v
                    ELSE IF FilesVerdict(files, e.fs) # "ok" THEN FilesVerdict(files, e.fs)
                    ELSE IF st /\ s.new # <<>> /\ Observed(hp, e) # "ok" THEN "loaded " \o Observed(hp, e)
                    ELSE Observed(hp, e)
           IN /\ heap' = hp
              /\ aux' = IF st THEN aux ELSE s.aux
              /\ fs' = files
              /\ verdict' = v
              /\ v # "ok" => PrintT("BAD|" \o ToString(Traces[tid].id) \o "|" \o ToString(i + 1) \o "|" \o e.op \o "|" \o v)
        /\ i' = i + 1
        /\ UNCHANGED tid
=============================================================================
