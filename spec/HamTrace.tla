----------------------------- MODULE HamTrace -----------------------------
(* Traces recorded from the real SpinHamiltonian checked against Ham.

   The file (environment variable TRACES) has one trace per line:
     [id, A: seq of atom records, cell, atoms, events: seq of events]
   A trace talks about several Hamiltonian objects (1, 2, ...): object 1 exists
   from the beginning, "copy" and "filtered" create new ones.  Every event has
     op, o (object it is applied to), arguments, res (observed outcome),
     val (observed returned value), and obs: sequence of [o, s] with the
     observable state of objects after the operation.
   Objects made from a Hamiltonian (its crystal, energy and dispersion objects)
   are numbered separately (field x); they are snapshots.
   The specification computes what has to be observed.  The first difference is
   named in `verdict` and printed.                                           *)
EXTENDS HamStep

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, heap, aux, verdict
vars == <<tid, i, heap, aux, verdict>>

JudgeObs(hp, ax, e) ==
    \* parameter objects that belong to the user keep the value they were made with
    IF \E k \in DOMAIN e.params : ~MClose(e.params[k].M, BuildParam(e.params[k].J), TOL)
         THEN "parameter object of the user is modified"
    ELSE LET bad == {k \in DOMAIN e.obs : StateVerdict(hp[e.obs[k].o], e.obs[k].s) # "ok"}
             xbad == {k \in DOMAIN e.xobs : ObjectVerdict(ax[e.xobs[k].x], e.xobs[k].s) # "ok"}
         IN IF bad # {} THEN LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                             IN (IF e.obs[k].o = e.o THEN "" ELSE "other object: ")
                                \o StateVerdict(hp[e.obs[k].o], e.obs[k].s)
            ELSE IF xbad # {} THEN LET k == CHOOSE x \in xbad : \A y \in xbad : x <= y
                                   IN ObjectVerdict(ax[e.xobs[k].x], e.xobs[k].s)
            ELSE "ok"

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ heap = <<EmptyHam(AtomTable(Traces[tid]), MNum(Traces[tid].cell), Traces[tid].atoms)>>
        /\ aux = <<>>
        /\ verdict = "ok"

Next == /\ verdict = "ok"
        /\ i < Len(Traces[tid].events)
        /\ LET e == Traces[tid].events[i + 1]
               s == Step(heap, aux, e)
               v == IF ~ResMatch(e.res, s.res) THEN "outcome: expected " \o s.res \o " got " \o e.res
                    ELSE IF s.v # "ok" THEN s.v
                    ELSE JudgeObs(s.heap, s.aux, e)
           IN /\ heap' = s.heap
              /\ aux' = s.aux
              /\ verdict' = v
              /\ v # "ok" => PrintT("BAD|" \o ToString(Traces[tid].id) \o "|" \o ToString(i + 1) \o "|" \o e.op \o "|" \o v)
        /\ i' = i + 1
        /\ UNCHANGED tid
=============================================================================
