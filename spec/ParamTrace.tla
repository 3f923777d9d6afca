----------------------------- MODULE ParamTrace -----------------------------
(* Recordings of operations on real MatrixParameter objects checked against
   ParamStep.  Every event has obs.ps (what every parameter shows) and obs.us
   (arrays of the user).  Numbers are compared relative to the largest number
   that occurred.                                                            *)
EXTENDS ParamStep, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, ps, us, scale, verdict
vars == <<tid, i, ps, us, scale, verdict>>

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
MMax(J) == LET m(v) == RMax(RAbs(v[1]), RMax(RAbs(v[2]), RAbs(v[3]))) IN RMax(m(J[1]), RMax(m(J[2]), m(J[3])))
RECURSIVE SMax(_, _)
SMax(s, z) == IF s = <<>> THEN z ELSE SMax(Tail(s), RMax(z, MMax(Head(s))))

\* |o - e| <= 1e-12 * scale
Cl(o, e, s) == RIsNum(o) /\ RLe(RAbs(RSub(o, e)), RMul(s, "1e-12"))
VCl(o, e, s) == Cl(o[1], e[1], s) /\ Cl(o[2], e[2], s) /\ Cl(o[3], e[3], s)
MCl(o, e, s) == VCl(o[1], e[1], s) /\ VCl(o[2], e[2], s) /\ VCl(o[3], e[3], s)
Diag(A) == <<A[1][1], A[2][2], A[3][3]>>
DiagM(A) == << <<A[1][1], "0", "0">>, <<"0", A[2][2], "0">>, <<"0", "0", A[3][3]>> >>

ShowVerdict(J, o, s) ==
    CASE ~MCl(o.matrix, J, s) -> "matrix"
      \* objects that the event is not about show only the matrix
      [] "iso" \notin DOMAIN o -> "ok"
      [] ~MCl(o.array, J, s) -> "array"
      [] ~MCl(o.comps, J, s) -> "component"
      [] ~MCl(o.symm, MSym(J), s) -> "symmetric part"
      [] ~MCl(o.asymm, MAsym(J), s) \/ ~MCl(o.A, MAsym(J), s) \/ ~MCl(o.dmim, MAsym(J), s) -> "antisymmetric part"
      [] ~Cl(o.iso, Iso(J), s) \/ ~Cl(o.I, Iso(J), s) -> "isotropic part"
      [] ~MCl(o.isom, IsoM(J), s) -> "isotropic matrix"
      [] ~MCl(o.aniso, Aniso(J), s) \/ ~MCl(o.S, Aniso(J), s) -> "anisotropic part"
      [] ~VCl(o.anisod, Diag(Aniso(J)), s) \/ ~MCl(o.anisodm, DiagM(Aniso(J)), s) -> "diagonal of the anisotropic part"
      [] ~VCl(o.dmi, Dmi(J), s) -> "DM vector"
      [] ~Cl(o.dmod, VNorm(Dmi(J)), s) -> "length of the DM vector"
      [] RLt(RMul(s, "1e-3"), RAbs(Iso(J))) /\ ~Cl(o.rel, RDiv(VNorm(Dmi(J)), RAbs(Iso(J))), "1000") -> "relative DM"
      [] ~MCl(o.T, MT(J), s) -> "transposed"
      [] OTHER -> "ok"

Same(a, b) == \A r \in 1..3 : \A c \in 1..3 : RNum(a[r][c]) = RNum(b[r][c])

Judge(s, e, z) ==
    CASE s.res = "ok" /\ e.res # "ok" -> "outcome: raises " \o e.res
      [] s.res # "ok" /\ e.res = "ok" -> "outcome: no error"
      [] s.val # <<>> /\ ~MCl(e.val, s.val[1], RMul(z, z)) -> "product"
      \* equality is equality of what the operands show
      [] e.op = "eq" /\ e.val # (IF Same(e.obs.ps[e.o].matrix, e.obs.ps[e.p].matrix) THEN "true" ELSE "false") -> "equality"
      [] e.op = "eqm" /\ e.val # (IF Same(e.obs.ps[e.o].matrix, Arg(s.ps, s.us, e.m)) THEN "true" ELSE "false") -> "equality"
      [] e.op = "ne" /\ e.val # (IF Same(e.obs.ps[e.o].matrix, e.obs.ps[e.p].matrix) THEN "false" ELSE "true") -> "inequality"
      [] Len(e.obs.ps) # Len(s.ps) -> "number of objects"
      [] OTHER ->
           LET bad == {k \in DOMAIN s.ps : ShowVerdict(s.ps[k], e.obs.ps[k], z) # "ok"}
           IN IF bad # {} THEN LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                               IN (IF "o" \in DOMAIN e /\ e.o = k THEN "" ELSE "other object: ")
                                  \o ShowVerdict(s.ps[k], e.obs.ps[k], z)
              ELSE IF \E k \in DOMAIN s.us : ~Same(s.us[k], e.obs.us[k]) THEN "argument is modified"
              ELSE "ok"

Init == tid \in 1..Len(Traces) /\ i = 0 /\ ps = <<>> /\ us = <<>> /\ scale = "0" /\ verdict = "ok"
Next == /\ verdict = "ok"
        /\ i < Len(Traces[tid].events)
        /\ LET e == Traces[tid].events[i + 1]
               s == PStep(ps, us, e)
               z == SMax(s.ps, SMax(s.us, scale))
               v == Judge(s, e, z)
           IN /\ ps' = s.ps /\ us' = s.us /\ scale' = z /\ verdict' = v
              /\ v # "ok" => PrintT("BAD|" \o ToString(Traces[tid].id) \o "|" \o ToString(i + 1) \o "|" \o e.op \o "|" \o v)
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
