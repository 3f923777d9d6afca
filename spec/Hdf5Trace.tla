----------------------------- MODULE Hdf5Trace -----------------------------
(* hdf5 files that were given to the real loader, checked against Hdf5File.
   Event: [op |-> "h5", tree, res, obs].                                     *)
EXTENDS Hdf5File, HamObs

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, verdict
vars == <<tid, i, verdict>>

\* factors and double counting that nothing needs
Needless(h, s) == IF h.ex = <<>> /\ h.on = <<>> THEN [h EXCEPT !.dc = s.dc, !.sn = s.sn, !.ef = s.ef, !.of = s.of]
                  ELSE IF h.ex = <<>> THEN [h EXCEPT !.dc = s.dc, !.ef = s.ef]
                  ELSE IF h.on = <<>> THEN [h EXCEPT !.of = s.of] ELSE h
Judge(e) ==
    LET p == ProblemH(e.tree)
    IN CASE e.modified -> "the file is modified"
         [] p = "none" /\ e.res # "ok" -> "file follows the layout, got " \o e.res
         [] p # "none" -> IF e.res = "ok" THEN "file is accepted: " \o p ELSE "ok"
         [] OTHER -> LET h == TLCEval(ReadH5(e.tree))
                         \* the sign of reciprocal vectors of a left-handed cell is a matter of convention
                         g == IF /\ InH(e.tree, "spiral") /\ Len(e.obs.q) = 3 /\ SLower(e.tree.spiral.units) = "absolute" /\ RLt(MDet(h.cell), "0")
                                 /\ VClose(VNum(e.obs.q), VScale(h.q, "-1"), "1e-9")
                              THEN [h EXCEPT !.q = VNum(e.obs.q)] ELSE h
                         r == StateVerdict(Needless(g, e.obs), e.obs)
                     IN IF r = "ok" THEN "ok" ELSE "loaded " \o r

Init == tid \in 1..Len(Traces) /\ i = 0 /\ verdict = "ok"
Next == /\ verdict = "ok"
        /\ i < Len(Traces[tid].events)
        /\ LET e == Traces[tid].events[i + 1]
               v == Judge(e)
           IN /\ verdict' = v
              /\ PrintT("VD|" \o ProblemH(e.tree))
              /\ v # "ok" => PrintT("BAD|" \o ToString(Traces[tid].id) \o "|" \o ToString(i + 1) \o "|" \o e.op \o "|" \o v)
        /\ i' = i + 1
        /\ UNCHANGED tid
=============================================================================
