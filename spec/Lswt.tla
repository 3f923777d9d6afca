------------------------------- MODULE Lswt -------------------------------
(* Linear spin-wave theory of a spin Hamiltonian (magnopy.MagnonDispersion)
   and the diagonalisation of quadratic boson Hamiltonians (Colpa).

   Complex numbers are pairs <<re, im>>; matrices are tuples of rows.        *)
EXTENDS Ham

C0 == <<"0", "0">>
C1 == <<"1", "0">>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CScale(a, r) == <<RMul(a[1], r), RMul(a[2], r)>>
CConj(a) == <<a[1], RNeg(a[2])>>
CClose(o, e, t) == RClose(o[1], e[1], t) /\ RClose(o[2], e[2], t)

RECURSIVE CSum(_, _)
CSum(f, n) == IF n = 0 THEN C0 ELSE CAdd(CSum(f, n - 1), f[n])

CMatMul(A, B) == TLCEval([i \in DOMAIN A |-> TLCEval([j \in DOMAIN B[1] |->
                    CSum([l \in DOMAIN B |-> CMul(A[i][l], B[l][j])], Len(B))])])
CDag(A) == TLCEval([i \in DOMAIN A[1] |-> TLCEval([j \in DOMAIN A |-> CConj(A[j][i])])])
\* sum_ij conj(A_li) d_l A_lj : A^dagger diag(d) A, d real
CForm(A, d) == TLCEval([i \in DOMAIN A |-> TLCEval([j \in DOMAIN A |->
                    CSum([l \in DOMAIN A |-> CScale(CMul(CConj(A[l][i]), A[l][j]), d[l])], Len(A))])])
CMatClose(o, e, t) == /\ Len(o) = Len(e)
                      /\ \A i \in DOMAIN o : Len(o[i]) = Len(e[i])
                      /\ \A i \in DOMAIN o : \A j \in DOMAIN o[i] : CClose(o[i][j], e[i][j], t)

-----------------------------------------------------------------------------
(* The spin-wave matrix.  h: Hamiltonian in the convention of SpinW (every pair
   twice, spins not normalised, both factors 1); ids: magnetic atoms in order;
   u, v: local frames: v_i unit vector along the spin, u_i = e1 + i e2 with
   e1, e2, v_i a right handed orthonormal set.  The choice of e1 is free.    *)
InSpinW(h) == SetAll(h, Predefined["spinw"])
ReVec(u) == <<u[1][1], u[2][1], u[3][1]>>
ImVec(u) == <<u[1][2], u[2][2], u[3][2]>>
FrameOk(S, u, v, t) ==
    LET e1 == ReVec(u)
        e2 == ImVec(u)
    IN /\ VClose(v, VUnit(S), t)
       /\ RClose(VNorm2(e1), "1", t) /\ RClose(VNorm2(e2), "1", t) /\ RClose(VDot(e1, e2), "0", t)
       /\ VClose(VCross(e1, e2), VUnit(S), t)

\* u^T J w for complex u, w and real J
CBil(u, J, w) ==
    LET a == ReVec(u)
        b == ImVec(u)
        c == ReVec(w)
        d == ImVec(w)
    IN <<RSub(MForm(a, J, c), MForm(b, J, d)), RAdd(MForm(a, J, d), MForm(b, J, c))>>
UConj(u) == <<CConj(u[1]), CConj(u[2]), CConj(u[3])>>

\* all terms as bonds: <<i, j, vector, matrix>>; i, j: positions in ids
LTerms(h, ids) ==
    LET pos(a) == CHOOSE k \in DOMAIN ids : ids[k] = a
    IN {<<pos(b[1]), pos(b[2]), BondVector(h, b), h.ex[b], "x">> : b \in Bonds(h)}
       \cup {<<pos(a), pos(a), VZero, h.on[a], "o">> : a \in Sites(h)}

RECURSIVE CSumSet(_, _)
CSumSet(f, T) == IF T = {} THEN C0
                 ELSE LET x == CHOOSE y \in T : TRUE IN CAdd(f[x], CSumSet(f, T \ {x}))

\* 2n x 2n matrix of H = sum X^dagger h X
SpinWave(h, ids, u, v, k) ==
    LET n == Len(ids)
        T == LTerms(h, ids)
        S(i) == h.A[ids[i]].spin
        rt == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> RDiv(RSqrt(RMul(S(i), S(j))), "2")])])
        ph == TLCEval([t \in T |-> LET x == VDot(k, t[3]) IN <<RCos(x), RSin(x)>>])
        Tij == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> {t \in T : t[1] = i /\ t[2] = j}])])
        A(i, j) == CScale(CSumSet([t \in Tij[i][j] |-> CMul(ph[t], CBil(u[i], t[4], UConj(u[j])))], Tij[i][j]), rt[i][j])
        D(i, j) == CScale(CSumSet([t \in Tij[i][j] |-> CMul(ph[t], CBil(UConj(u[i]), t[4], u[j]))], Tij[i][j]), rt[i][j])
        B(i, j) == CScale(CSumSet([t \in Tij[i][j] |-> CMul(ph[t], CBil(u[i], t[4], u[j]))], Tij[i][j]), rt[i][j])
        Cc == TLCEval([i \in 1..n |-> LET Ti == {t \in T : t[1] = i}
                                      IN RSumF([t \in Ti |-> RMul(S(t[2]), MForm(v[i], t[4], v[t[2]]))], Ti)])
        dia(i, j) == IF i = j THEN <<Cc[i], "0">> ELSE C0
        two(z) == CScale(z, "2")
    IN TLCEval([i \in 1..(2 * n) |-> TLCEval([j \in 1..(2 * n) |->
         CASE i <= n /\ j <= n -> two(CSub(A(i, j), dia(i, j)))
           [] i <= n /\ j > n  -> two(B(i, j - n))
           [] i > n /\ j <= n  -> two(CConj(B(j, i - n)))
           [] OTHER -> two(CSub(D(i - n, j - n), dia(i - n, j - n)))])])
\* its parts: Fourier transform of the parameters, on-site energies
Fourier(h, ids, k) ==
    LET n == Len(ids)
        T == LTerms(h, ids)
        ph == TLCEval([t \in T |-> LET x == VDot(k, t[3]) IN <<RCos(x), RNeg(RSin(x))>>])
    IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> LET Tij == {t \in T : t[1] = i /\ t[2] = j}
         IN TLCEval([a \in 1..3 |-> TLCEval([b \in 1..3 |-> CSumSet([t \in Tij |-> CScale(ph[t], t[4][a][b])], Tij)])])])])
LswtC(h, ids, v) ==
    LET n == Len(ids)
        T == LTerms(h, ids)
    IN TLCEval([i \in 1..n |-> LET Ti == {t \in T : t[1] = i}
                 IN RSumF([t \in Ti |-> RMul(h.A[ids[t[2]]].spin, MForm(v[i], t[4], v[t[2]]))], Ti)])
\* A, B, C: blocks of the matrix are 2 A - 2 C and 2 B; C is diagonal
PartsVerdict(h, ids, v, H, x, k) ==
    LET n == Len(ids)
        C == LswtC(h, ids, v)
        F == Fourier(h, ids, k)
    IN CASE ~(Len(x.J) = n /\ \A i \in 1..n : Len(x.J[i]) = n /\ \A j \in 1..n : CMatClose(x.J[i][j], F[i][j], "1e-7")) -> "Fourier transform"
         [] ~CMatClose(x.C, [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<C[i], "0">> ELSE C0]], "1e-7") -> "part C of the matrix"
         [] ~CMatClose(x.B, [i \in 1..n |-> [j \in 1..n |-> CScale(H[i][n + j], "1/2")]], "1e-7") -> "part B of the matrix"
         [] ~CMatClose(x.A, [i \in 1..n |-> [j \in 1..n |-> CAdd(CScale(H[i][j], "1/2"), IF i = j THEN <<C[i], "0">> ELSE C0)]], "1e-7")
              -> "part A of the matrix"
         [] OTHER -> "ok"
-----------------------------------------------------------------------------
(* Diagonalisation.  D: Hermitian 2N x 2N matrix, E: values, G: transformation.
   D = G^dagger diag(E) G, G keeps the bosonic commutation relations.        *)
Metric(n) == [i \in 1..(2 * n) |-> IF i <= n THEN "1" ELSE "-1"]
MetricMat(n) == [i \in 1..(2 * n) |-> [j \in 1..(2 * n) |-> IF i # j THEN C0 ELSE IF i <= n THEN C1 ELSE <<"-1", "0">>]]
Diagonalises(D, E, G, t) == CMatClose(CForm(G, E), D, t)
\* G g G^dagger = g, written with the rows of G
Canonical(G, n, t) == CMatClose(CForm(CDag(G), Metric(n)), MetricMat(n), t)
\* first half descending, second half ascending
Ordered(E, n, t) == /\ \A i \in 1..(n - 1) : RLe(E[i + 1], RAdd(E[i], t))
                    /\ \A i \in (n + 1)..(2 * n - 1) : RLe(E[i], RAdd(E[i + 1], t))
AllNumbers(E) == \A i \in DOMAIN E : RIsNum(E[i])

\* smallest pivot of the elimination without row exchanges; positive iff D > 0
RECURSIVE MinPivot(_)
MinPivot(D) ==
    LET p == D[1][1][1]
        m == Len(D)
    IN IF m = 1 \/ RLe(p, "0") THEN p
       ELSE LET s == TLCEval([i \in 1..(m - 1) |-> TLCEval([j \in 1..(m - 1) |->
                        CSub(D[i + 1][j + 1], CScale(CMul(D[i + 1][1], D[1][j + 1]), RDiv("1", p)))])])
                r == MinPivot(s)
            IN IF RLt(r, p) THEN r ELSE p
CNeg(D) == TLCEval([i \in DOMAIN D |-> TLCEval([j \in DOMAIN D |-> CScale(D[i][j], "-1")])])
CNumMat(D) == TLCEval([i \in DOMAIN D |-> TLCEval([j \in DOMAIN D[i] |-> <<RNum(D[i][j][1]), RNum(D[i][j][2])>>])])
Hermitian(D, t) == CMatClose(D, CDag(D), t)
=============================================================================
