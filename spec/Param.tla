------------------------------ MODULE Param ------------------------------
(* Anatomy of a matrix parameter: J = iso * 1 + aniso + dmi.               *)
EXTENDS Mat3

Iso(J) == RDiv(MTrace(J), "3")
IsoM(J) == MScale(MOne, Iso(J))
Aniso(J) == MSub(MSym(J), IsoM(J))
DmiM(J) == MAsym(J)
Dmi(J) == LET A == MAsym(J) IN <<A[2][3], A[3][1], A[1][2]>>
DmiMat(D) == << <<"0", D[3], RNeg(D[2])>>, <<RNeg(D[3]), "0", D[1]>>, <<D[2], RNeg(D[1]), "0">> >>

\* setters: replace one part, keep the others
SetIso(J, x) == MAdd(MSub(J, IsoM(J)), MScale(MOne, x))
\* (an aniso argument with a trace or an antisymmetric part is added as it is)
SetAniso(J, A) == MAdd(MSub(J, Aniso(J)), A)
SetDmi(J, D) == MAdd(MSub(J, DmiM(J)), DmiMat(D))

\* construction from any subset of parts; a given part replaces that part of the
\* matrix.  v: record with some of the fields matrix, iso, dmi, aniso
BuildParam(v) ==
    LET m0 == IF "matrix" \in DOMAIN v THEN MNum(v.matrix) ELSE MZero
        m1 == IF "iso" \in DOMAIN v THEN SetIso(m0, v.iso) ELSE m0
        m2 == IF "dmi" \in DOMAIN v THEN SetDmi(m1, v.dmi) ELSE m1
    IN  IF "aniso" \in DOMAIN v THEN SetAniso(m2, v.aniso) ELSE m2
=============================================================================
