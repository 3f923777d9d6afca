------------------------------- MODULE Colpa -------------------------------
(* What the diagonalisation of a quadratic boson Hamiltonian has to answer
   (magnopy.magnons.solve_via_colpa): for a Hermitian positive definite matrix D
   values E and a matrix G with
       E > 0, first half descending, second half ascending,
       D = G^dagger diag(E) G      (E = (G^dagger)^-1 D G^-1),
       G g G^dagger = g            (new operators are bosons again),
   for a Hermitian matrix that is not positive definite the failure is reported. *)
EXTENDS Lswt

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RECURSIVE SeqMax(_, _)
SeqMax(f, n) == IF n = 0 THEN "0" ELSE RMax(SeqMax(f, n - 1), f[n])
\* largest part of an element
Size1(A) == SeqMax(TLCEval([i \in DOMAIN A |-> SeqMax(TLCEval([j \in DOMAIN A[i] |-> RMax(RAbs(A[i][j][1]), RAbs(A[i][j][2]))]), Len(A[i]))]), Len(A))
Within(o, e, t) == \A i \in DOMAIN e : \A j \in DOMAIN e : /\ RLe(RAbs(RSub(o[i][j][1], e[i][j][1])), t)
                                                            /\ RLe(RAbs(RSub(o[i][j][2], e[i][j][2])), t)
IsCMat(A, m) == /\ Len(A) = m
                /\ \A i \in DOMAIN A : Len(A[i]) = m /\ \A j \in DOMAIN A[i] : RIsNum(A[i][j][1]) /\ RIsNum(A[i][j][2])

\* c: [D, res, E, G, kept]; the answer of the code to the matrix D
ColpaVerdict(c) ==
    LET m == Len(c.D)
        n == m \div 2
        D == CNumMat(c.D)
        s == Size1(D)
        p == MinPivot(D)
        eps == RMul(s, "1e-7")
        gs == Size1(c.G)
    IN CASE ~c.kept -> "argument is modified"
         [] ~Hermitian(D, "1e-12") -> "ok"
         [] RLt(p, RNeg(eps)) -> IF c.res = "ColpaFailed" THEN "ok" ELSE "not positive definite, but the outcome is " \o c.res
         [] RLe(p, eps) -> IF c.res \in {"ok", "ColpaFailed"} THEN "ok" ELSE "outcome " \o c.res
         [] c.res # "ok" -> "positive definite, but the outcome is " \o c.res
         [] Len(c.E) # m \/ ~AllNumbers(c.E) -> "shape of values"
         [] ~IsCMat(c.G, m) -> "shape of transformation"
         [] \E k \in 1..m : RLe(c.E[k], "0") -> "value is not positive"
         [] ~Ordered(c.E, n, RMul(s, "1e-9")) -> "order of values"
         [] ~Within(CForm(c.G, c.E), D, RMul(s, "1e-7")) -> "matrix is not diagonalised"
         [] ~Within(CForm(CDag(c.G), Metric(n)), MetricMat(n), RMul(RMul(gs, gs), "1e-7")) -> "commutation relations"
         [] "exp" \in DOMAIN c /\ (\E k \in 1..m : ~RClose(c.E[k], c.exp[k], "1e-7")) -> "values"
         [] OTHER -> "ok"
=============================================================================
