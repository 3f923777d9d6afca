----------------------------- MODULE TxtTrace -----------------------------
(* Files that were given to the real loader, checked against TxtFile.
   Event: [op |-> "load", lines, res, obs].  JUDGE = "outcome": only whether
   the file is accepted matters; "read": the loaded Hamiltonian as well.      *)
EXTENDS TxtFile, HamObs

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, verdict
vars == <<tid, i, verdict>>

\* without parameters the notation of a file has no meaning
NoNotation(h, s) == IF h.ex = <<>> /\ h.on = <<>> THEN [h EXCEPT !.dc = s.dc, !.sn = s.sn, !.ef = s.ef, !.of = s.of]
                    \* a component that is not needed
                    ELSE IF h.ex = <<>> THEN [h EXCEPT !.dc = s.dc, !.ef = s.ef]
                    ELSE IF h.on = <<>> THEN [h EXCEPT !.of = s.of] ELSE h
Judge(e) ==
    LET v == Verdict(e.lines)
    IN CASE v = "accept" /\ e.res # "ok" -> "file follows the format, got " \o e.res
         [] v = "reject" /\ e.res = "ok" -> "file is accepted: " \o Problem(e.lines)
         [] v = "reject" /\ e.res # "FailedToVerifyTxtModelFile" -> "wrong error " \o e.res \o ": " \o Problem(e.lines)
         [] e.res = "ok" /\ "filtered" \in DOMAIN e /\ Filtered(e.filtered) # Filtered(e.lines) -> "copy of the file without comments differs"
         [] v = "accept" /\ IOEnv.JUDGE = "read" ->
              LET h == TLCEval(Read(e.lines))
                  r == StateVerdict(NoNotation(h, e.obs), e.obs)
              IN IF r = "ok" THEN "ok" ELSE "loaded " \o r
         [] OTHER -> "ok"

Init == tid \in 1..Len(Traces) /\ i = 0 /\ verdict = "ok"
Next == /\ verdict = "ok"
        /\ i < Len(Traces[tid].events)
        /\ LET e == Traces[tid].events[i + 1]
               v == Judge(e)
           IN /\ verdict' = v
              /\ PrintT("VD|" \o Verdict(e.lines) \o "|" \o Problem(e.lines))
              /\ v # "ok" => PrintT("BAD|" \o ToString(Traces[tid].id) \o "|" \o ToString(i + 1) \o "|" \o e.op \o "|" \o v)
        /\ i' = i + 1
        /\ UNCHANGED tid
=============================================================================
