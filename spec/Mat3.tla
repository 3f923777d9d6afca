------------------------------- MODULE Mat3 -------------------------------
(* Vectors of three numbers and 3x3 matrices (tuples of rows) over Rat.     *)
EXTENDS Rat, Integers, Sequences, FiniteSets

V3(x, y, z) == <<x, y, z>>
VZero == <<"0", "0", "0">>
VAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2]), RAdd(u[3], v[3])>>
VSub(u, v) == <<RSub(u[1], v[1]), RSub(u[2], v[2]), RSub(u[3], v[3])>>
VScale(u, f) == <<RMul(u[1], f), RMul(u[2], f), RMul(u[3], f)>>
VDot(u, v) == RAdd(RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])), RMul(u[3], v[3]))
VCross(u, v) == << RSub(RMul(u[2], v[3]), RMul(u[3], v[2])),
                   RSub(RMul(u[3], v[1]), RMul(u[1], v[3])),
                   RSub(RMul(u[1], v[2]), RMul(u[2], v[1])) >>
VNorm2(u) == VDot(u, u)
VNorm(u) == RSqrt(VNorm2(u))
VUnit(u) == LET n == VNorm(u) IN <<RDiv(u[1], n), RDiv(u[2], n), RDiv(u[3], n)>>
VNum(u) == <<RNum(u[1]), RNum(u[2]), RNum(u[3])>>

MZero == <<VZero, VZero, VZero>>
MOne == << <<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">> >>
MNum(A) == <<VNum(A[1]), VNum(A[2]), VNum(A[3])>>
MAdd(A, B) == <<VAdd(A[1], B[1]), VAdd(A[2], B[2]), VAdd(A[3], B[3])>>
MSub(A, B) == <<VSub(A[1], B[1]), VSub(A[2], B[2]), VSub(A[3], B[3])>>
MScale(A, f) == <<VScale(A[1], f), VScale(A[2], f), VScale(A[3], f)>>
MT(A) == << <<A[1][1], A[2][1], A[3][1]>>,
            <<A[1][2], A[2][2], A[3][2]>>,
            <<A[1][3], A[2][3], A[3][3]>> >>
MTrace(A) == RAdd(RAdd(A[1][1], A[2][2]), A[3][3])
MSym(A) == MScale(MAdd(A, MT(A)), "1/2")
MAsym(A) == MScale(MSub(A, MT(A)), "1/2")
MVec(A, v) == <<VDot(A[1], v), VDot(A[2], v), VDot(A[3], v)>>
VMat(v, A) == MVec(MT(A), v)
MMul(A, B) == LET Bt == MT(B) IN <<MVec(Bt, A[1]), MVec(Bt, A[2]), MVec(Bt, A[3])>>
MDet(A) == VDot(A[1], VCross(A[2], A[3]))
\* the bilinear form u^T A v
MForm(u, A, v) == VDot(u, MVec(A, v))
MOuter(u, v) == <<VScale(v, u[1]), VScale(v, u[2]), VScale(v, u[3])>>
\* matrix K with K v = n x v
MCross(n) == << <<"0", RNeg(n[3]), n[2]>>, <<n[3], "0", RNeg(n[1])>>, <<RNeg(n[2]), n[1], "0">> >>
\* inverse: rows of the adjugate over the determinant
MInv(A) == LET d == MDet(A)
           IN MT(<<VScale(VCross(A[2], A[3]), RDiv("1", d)),
                   VScale(VCross(A[3], A[1]), RDiv("1", d)),
                   VScale(VCross(A[1], A[2]), RDiv("1", d))>>)

VClose(o, e, t) == RClose(o[1], e[1], t) /\ RClose(o[2], e[2], t) /\ RClose(o[3], e[3], t)
MClose(o, e, t) == VClose(o[1], e[1], t) /\ VClose(o[2], e[2], t) /\ VClose(o[3], e[3], t)

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), RSumSeq(Tail(s)))
\* sum of f[x] over x in the finite set T
RECURSIVE RSumF(_, _)
RSumF(f, T) == IF T = {} THEN "0"
               ELSE LET x == CHOOSE y \in T : TRUE IN RAdd(f[x], RSumF(f, T \ {x}))
Ran(s) == {s[i] : i \in DOMAIN s}
=============================================================================
