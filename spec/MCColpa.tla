------------------------------ MODULE MCColpa ------------------------------
(* Matrices with a known diagonalisation: D = G^dagger diag(E) G for all E of a
   small set (also degenerate, zero and negative) and all products G of rotations,
   boosts, phases and permutations of operators, all exact.                   *)
EXTENDS Colpa, Json

CONSTANTS N, Export
VARIABLES c, done
vars == <<c, done>>

Two == 2 * N
Id == [i \in 1..Two |-> [j \in 1..Two |-> IF i = j THEN C1 ELSE C0]]
Sub(i, j, a, b, cc, d) == [x \in 1..Two |-> [y \in 1..Two |->
     CASE x = i /\ y = i -> a [] x = i /\ y = j -> b [] x = j /\ y = i -> cc [] x = j /\ y = j -> d
       [] OTHER -> IF x = y THEN C1 ELSE C0]]
\* mixing of operator i with the creation operator j (boost), with phase
Boosts == {Sub(i, N + j, <<"5/4", "0">>, <<"0", "3/4">>, <<"0", "-3/4">>, <<"5/4", "0">>) : i, j \in 1..N}
          \cup {Sub(1, Two, <<"13/12", "0">>, <<"5/12", "0">>, <<"5/12", "0">>, <<"13/12", "0">>)}
\* mixing of two annihilation (creation) operators, phases
Rots == {Sub(i, j, <<"3/5", "0">>, <<"4/5", "0">>, <<"-4/5", "0">>, <<"3/5", "0">>) : <<i, j>> \in {<<a, b>> \in (1..N) \X (1..N) : a < b}}
        \cup {Sub(N + i, N + j, <<"0", "3/5">>, <<"4/5", "0">>, <<"-4/5", "0">>, <<"0", "-3/5">>) : <<i, j>> \in {<<a, b>> \in (1..N) \X (1..N) : a < b}}
        \cup {[Id EXCEPT ![1][1] = <<"0", "1">>]}
Gs == {Id} \cup Boosts \cup Rots \cup {CMatMul(a, b) : a \in Boosts, b \in Rots} \cup {CMatMul(b, CMatMul(a, b)) : a \in Boosts, b \in Rots}
Vals == IF N = 1 THEN {"1", "3", "0", "-1/2", "1/4"} ELSE {"1", "3", "-1/2"}
Es == [1..Two -> Vals]

\* values in the order the code has to give them
SortD(f) == CHOOSE s \in {[k \in 1..N |-> f[p[k]]] : p \in Permutations(1..N)} : \A k \in 1..(N - 1) : RLe(s[k + 1], s[k])
Expected(E) == LET a == SortD([k \in 1..N |-> E[k]])
                   b == SortD([k \in 1..N |-> E[N + k]])
               IN [k \in 1..Two |-> IF k <= N THEN a[k] ELSE b[Two + 1 - k]]

Case(E, G) == LET D == CForm(G, E) IN [E |-> E, G |-> G, D |-> D]
Init == done = 0 /\ \E G \in Gs : c = [G |-> G]
Next == /\ done = 0 /\ done' = 1
        /\ \E E \in Es : /\ c' = Case(E, c.G)
                         /\ Export => PrintT("TR|" \o ToJson([D |-> c'.D, exp |-> Expected(E), pos |-> \A k \in 1..Two : RLt("0", E[k])]))

Positive(E) == \A k \in 1..Two : RLt("0", E[k])
Solution == done = 1 => /\ Hermitian(c.D, "0")
                        /\ CForm(CDag(c.G), Metric(N)) = MetricMat(N)
                        /\ Positive(c.E) = RLt("0", MinPivot(c.D))
\* the values are determined by the matrix: they (with the metric) are the roots
\* of the characteristic polynomial of D g, so the trace and the trace of the
\* square agree
Traces2 == done = 1 =>
    LET Dg == TLCEval([i \in 1..Two |-> TLCEval([j \in 1..Two |-> IF j <= N THEN c.D[i][j] ELSE CScale(c.D[i][j], "-1")])])
        tr(A) == CSum([i \in 1..Two |-> A[i][i]], Two)
        sg(k) == IF k <= N THEN c.E[k] ELSE RNeg(c.E[k])
    IN /\ tr(Dg) = <<RSumF([k \in 1..Two |-> sg(k)], 1..Two), "0">>
       /\ tr(CMatMul(Dg, Dg)) = <<RSumF([k \in 1..Two |-> RMul(sg(k), sg(k))], 1..Two), "0">>
\* the verdict accepts the solution and refuses others
Accepts == done = 1 /\ Positive(c.E) /\ Expected(c.E) = c.E =>
    LET ans == [D |-> c.D, res |-> "ok", E |-> c.E, G |-> c.G, kept |-> TRUE]
    IN /\ ColpaVerdict(ans) = "ok"
       /\ ColpaVerdict([ans EXCEPT !.res = "ColpaFailed"]) # "ok"
       /\ ColpaVerdict([ans EXCEPT !.E = [@ EXCEPT ![1] = RAdd(@, "1/100")]]) # "ok"
       /\ ColpaVerdict([ans EXCEPT !.G = CMatMul(@, Sub(1, Two, <<"2", "0">>, C0, C0, C1))]) # "ok"
=============================================================================
