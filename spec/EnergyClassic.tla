--------------------------- MODULE EnergyClassic ---------------------------
(* Classical energy of a spin Hamiltonian (magnopy.Energy), per unit cell.

   An energy object is a snapshot of a Hamiltonian with normalisation of spins
   removed, together with values the user may change afterwards:
     [h, ids, S, g, H]   ids: magnetic atoms in order, S: spins, g: g factors
                         (functions from atoms), H: field, <<>> if there is none

   The three kinds of states are defined by the spin vector of atom i in the
   cell R, for given directions e_i, cone axis n and spiral vector q:
     ferro      every cell is a replica:                        e_i
     antiferro  2q is a reciprocal lattice vector: the component along n is the
                same in every cell, the rest is multiplied by cos(q.R) = +-1
     spiral     the component along n is the same in every cell, the rest is
                rotated by q.R about n
   and the energy per cell is the average over the cells, that is over the
   rotation angle of the first atom of a bond: 0 and pi for antiferro, all
   angles for spiral (the energy of a bond has only harmonics 0, 1, 2 of that
   angle, so the mean over four equidistant angles is the mean over all).    *)
EXTENDS Ham

\* Bohr magneton in meV/T
MuB == RDiv("9.2740100783e-24", RMul("1e-3", "1.602176634e-19"))

EnergyReady(h) == /\ h.dc # Undef /\ h.sn # Undef /\ h.ef # Undef
                  /\ h.on # <<>> => h.of # Undef

EnergyOf(h, ids) ==
    [h |-> SetSn(h, "false"), ids |-> ids,
     S |-> [a \in Ran(ids) |-> h.A[a].spin],
     g |-> [a \in Ran(ids) |-> h.A[a].g],
     H |-> <<>>]

Par(n, v) == VScale(n, VDot(n, v))
Perp(n, v) == VSub(v, Par(n, v))
\* rotation about the unit vector n by an angle with cosine c and sine s
Rotate(n, c, s, v) == VAdd(Par(n, v), VAdd(VScale(Perp(n, v), c), VScale(VCross(n, v), s)))

\* energy of bonds, on-site terms and field for spin vectors: v1[a] in the first
\* cell, v2[b] the vector of the second atom of the bond b (both of unit length)
Terms(o, v1, v2) ==
    LET h == o.h
        fx == [b \in Bonds(h) |-> RMul(RMul(o.S[b[1]], o.S[b[2]]), MForm(v1[b[1]], h.ex[b], v2[b]))]
        fo == [a \in Sites(h) |-> RMul(RMul(o.S[a], o.S[a]), MForm(v1[a], h.on[a], v1[a]))]
        fz == [a \in Ran(o.ids) |-> RMul(RMul(o.g[a], o.S[a]), VDot(o.H, v1[a]))]
    IN RAdd(RAdd(IF Bonds(h) = {} THEN "0" ELSE RMul(h.ef, RSumF(fx, DOMAIN fx)),
                 IF Sites(h) = {} THEN "0" ELSE RMul(h.of, RSumF(fo, DOMAIN fo))),
            IF o.H = <<>> THEN "0" ELSE RMul(MuB, RSumF(fz, DOMAIN fz)))

\* e: function from atoms to directions (any length)
Units(e) == [a \in DOMAIN e |-> VUnit(e[a])]

Ferro(o, e) ==
    LET u == TLCEval(Units(e))
    IN Terms(o, u, TLCEval([b \in Bonds(o.h) |-> u[b[2]]]))

\* N: integers with q = sum N_i b_i / 2, so that cos(q.R) = (-1)^(N.R)
Even(k) == k % 2 = 0
Antiferro(o, e, n, N) ==
    LET u == TLCEval(Units(e))
        m == VUnit(n)
        sgn(R) == IF Even(N[1] * R[1] + N[2] * R[2] + N[3] * R[3]) THEN "1" ELSE "-1"
        at(p) == Terms(o, TLCEval([a \in DOMAIN u |-> Rotate(m, p, "0", u[a])]),
                       TLCEval([b \in Bonds(o.h) |-> Rotate(m, RMul(p, sgn(b[3])), "0", u[b[2]])]))
    IN RDiv(RAdd(at("1"), at("-1")), "2")

LatVec(h, R) == VMat(IntR(R), h.cell)
\* cs: function from R to <<cos(q.R), sin(q.R)>>
SpiralCS(o, e, n, cs) ==
    LET u == TLCEval(Units(e))
        m == VUnit(n)
        at(c, s) == Terms(o, TLCEval([a \in DOMAIN u |-> Rotate(m, c, s, u[a])]),
                          TLCEval([b \in Bonds(o.h) |->
                              LET x == cs[b[3]]
                              IN Rotate(m, RSub(RMul(c, x[1]), RMul(s, x[2])),
                                        RAdd(RMul(s, x[1]), RMul(c, x[2])), u[b[2]])]))
    IN RDiv(RAdd(RAdd(at("1", "0"), at("0", "1")), RAdd(at("-1", "0"), at("0", "-1"))), "4")
Spiral(o, e, n, q) ==
    SpiralCS(o, e, n, TLCEval([R \in {b[3] : b \in Bonds(o.h)} |->
                LET x == VDot(q, LatVec(o.h, R)) IN <<RCos(x), RSin(x)>>]))

-----------------------------------------------------------------------------
(* Closed forms given in the documentation; MCEnergy shows that they are the
   averages above.                                                           *)
ClosedAntiferro(J, n, sg) ==
    LET K == MCross(n)
        K2 == MMul(K, K)
        P == MAdd(MOne, K2)
    IN MAdd(MMul(P, MMul(J, P)), MScale(MMul(K2, MMul(J, K2)), sg))
ClosedSpiral(J, n, c, s) ==
    LET K == MCross(n)
        K2 == MMul(K, K)
        P == MAdd(MOne, K2)
    IN MSub(MSub(MMul(P, MMul(J, P)),
                 MScale(MSub(MMul(K, MMul(J, K)), MMul(K2, MMul(J, K2))), RDiv(c, "2"))),
            MScale(MAdd(MMul(K, MMul(J, K2)), MMul(K2, MMul(J, K))), RDiv(s, "2")))

-----------------------------------------------------------------------------
(* Torque of a state: e_i x dE/de_i.  The ferro energy is quadratic in the
   components of e, so symmetric differences are exact.                      *)
RawFerro(o, v) == Terms(o, v, TLCEval([b \in Bonds(o.h) |-> v[b[2]]]))
Axis(k) == IF k = 1 THEN <<"1", "0", "0">> ELSE IF k = 2 THEN <<"0", "1", "0">> ELSE <<"0", "0", "1">>
GradFerro(o, u, a) ==
    LET d(k) == RDiv(RSub(RawFerro(o, TLCEval([u EXCEPT ![a] = VAdd(@, Axis(k))])),
                          RawFerro(o, TLCEval([u EXCEPT ![a] = VSub(@, Axis(k))]))), "2")
    IN <<d(1), d(2), d(3)>>
TorqueFerro2(o, u, a) == VNorm2(VCross(u[a], GradFerro(o, u, a)))
=============================================================================
