------------------------------ MODULE Optimize ------------------------------
(* Minimisation of the classical energy (magnopy.Energy.optimize).

   The minimiser walks through states of one kind (ferro, antiferro, spiral).
   The method that chooses the next state is left open; what a user relies on:
     - the walk starts in the given state (directions of unit length),
     - a step never raises the energy,
     - the walk ends when the energy and the torques do not change any more
       within the tolerance, or after the given number of steps,
     - the last state is returned; for antiferro the spiral vector is kept,
     - the history lists the states, their energies and torques.
   MCOptimize explores the walks on a finite set of states; here are the
   conditions for a recorded run.                                            *)
EXTENDS EnergyClassic

CaseNames == [ferro |-> {"ferro", "0"}, antiferro |-> {"antiferro", "1"}, spiral |-> {"spiral", "2"}]
OptKind(e) == IF e.case \in {"ferro", "0"} THEN "ferro"
              ELSE IF e.case \in {"antiferro", "1"} THEN "antiferro"
              ELSE IF e.case \in {"spiral", "2"} THEN "spiral" ELSE "unknown"
NTol(k) == IF k = "ferro" THEN 2 ELSE 3
Given(e) == Len(e.e) # 0
OptValid(o, e) ==
    LET k == OptKind(e)
    IN /\ k # "unknown"
       /\ Len(e.tol) \in {0, NTol(k)}
       /\ Given(e) => /\ Len(e.e) = Len(o.ids) /\ \A i \in DOMAIN e.e : Len(e.e[i]) = 3
                      /\ k # "ferro" => Len(e.n) = 3
                      /\ k = "spiral" => Len(e.q) = 3
       /\ k = "antiferro" => Len(e.q) = 3
Tolerance(e, i) == IF e.tol = <<>> THEN "1e-5" ELSE e.tol[i]

\* a state: [e: directions in order, n, q]
OptEnergy(o, k, N, x) ==
    LET d == [a \in Ran(o.ids) |-> x.e[CHOOSE i \in DOMAIN o.ids : o.ids[i] = a]]
    IN CASE k = "ferro" -> Ferro(o, d)
         [] k = "antiferro" -> Antiferro(o, d, x.n, N)
         [] OTHER -> Spiral(o, d, x.n, x.q)
OptState(x) == [e |-> TLCEval([i \in DOMAIN x.e |-> VNum(x.e[i])]),
                n |-> IF x.n = <<>> THEN <<>> ELSE VNum(x.n), q |-> IF x.q = <<>> THEN <<>> ELSE VNum(x.q)]

\* bound of the energies of all states
AbsSum(M) == RSumSeq([i \in 1..9 |-> RAbs(M[((i - 1) \div 3) + 1][((i - 1) % 3) + 1])])
OptScale(o) ==
    LET h == o.h
        fx == [b \in Bonds(h) |-> RMul(RMul(o.S[b[1]], o.S[b[2]]), AbsSum(h.ex[b]))]
        fo == [a \in Sites(h) |-> RMul(RMul(o.S[a], o.S[a]), AbsSum(h.on[a]))]
        fz == [a \in Ran(o.ids) |-> RMul(RAbs(RMul(o.g[a], o.S[a])), VNorm(o.H))]
    IN RAdd("1", RAdd(RAdd(IF Bonds(h) = {} THEN "0" ELSE RMul(RAbs(h.ef), RSumF(fx, DOMAIN fx)),
                           IF Sites(h) = {} THEN "0" ELSE RMul(RAbs(h.of), RSumF(fo, DOMAIN fo))),
                      IF o.H = <<>> THEN "0" ELSE RMul(MuB, RSumF(fz, DOMAIN fz))))

\* derivative of the energy for a rotation of vector j (the cone axis is the
\* last one) about the axis a; differences with a small angle
OptT == "1e-9"
Turned(x, j, a, t) ==
    IF j > Len(x.e) THEN [x EXCEPT !.n = VAdd(@, VScale(VCross(a, @), t))]
    ELSE [x EXCEPT !.e[j] = VAdd(@, VScale(VCross(a, @), t))]
Ax(i) == IF i = 1 THEN <<"1", "0", "0">> ELSE IF i = 2 THEN <<"0", "1", "0">> ELSE <<"0", "0", "1">>
OptTorque(o, k, N, x, j) ==
    TLCEval([i \in 1..3 |-> RDiv(RSub(OptEnergy(o, k, N, TLCEval(Turned(x, j, Ax(i), OptT))),
                                      OptEnergy(o, k, N, TLCEval(Turned(x, j, Ax(i), RNeg(OptT))))), RMul("2", OptT))])
OptVectors(k, x) == 1..(Len(x.e) + IF k = "ferro" THEN 0 ELSE 1)

SameState(k, a, b, t) ==
    /\ \A i \in DOMAIN a.e : VClose(a.e[i], b.e[i], t)
    /\ k # "ferro" => VClose(a.n, b.n, t) /\ VClose(a.q, b.q, t)
UnitLength(k, x, t) == /\ \A i \in DOMAIN x.e : RClose(VNorm2(x.e[i]), "1", t)
                       /\ k # "ferro" => RClose(VNorm2(x.n), "1", t)

HistTol == "1e-6"
\* a recorded run; e.val: [len, e, n, q (the result), rows, nrows, Es]
OptVerdict(o, e) ==
    LET k == OptKind(e)
        r == e.val
        N == e.N
        res == OptState(r)
        scale == OptScale(o)
        Er == OptEnergy(o, k, N, res)
        start == [e |-> TLCEval([i \in DOMAIN e.e |-> VUnit(VNum(e.e[i]))]),
                  n |-> IF k = "ferro" THEN <<>> ELSE VUnit(VNum(e.n)),
                  q |-> IF k = "ferro" THEN <<>> ELSE VNum(e.q)]
        near(a, b, t) == RLe(RAbs(RSub(a, b)), RMul(t, scale))
        finite == /\ \A i \in DOMAIN r.e : \A j \in 1..3 : RIsNum(r.e[i][j])
                  /\ \A j \in DOMAIN r.n : RIsNum(r.n[j])
                  /\ \A j \in DOMAIN r.q : RIsNum(r.q[j])
        done == e.maxit = -1 \/ (e.hist # "none" /\ r.nrows - 1 < e.maxit)
        \* torques in the history: those of the state itself or of the previous one
        \* (1: greatest one of the directions, 2: the one of the cone axis)
        torque(x, i) == IF i = 2 THEN VNorm(OptTorque(o, k, N, x, Len(x.e) + 1))
                        ELSE LET ts == TLCEval([j \in DOMAIN x.e |-> VNorm(OptTorque(o, k, N, x, j))])
                             IN ts[CHOOSE j \in DOMAIN ts : \A l \in DOMAIN ts : RLe(ts[l], ts[j])]
        pairs == {m \in {2, Len(r.rows)} \cap DOMAIN r.rows : m > 1 /\ (m = 2 => r.nrows <= 4) /\ r.rows[m].i = r.rows[m - 1].i + 1}
        is(m, i, x) == RLe(RAbs(RSub(RNum(r.rows[m].t[i]), torque(x, i))), RMul(HistTol, scale))
        reported(m, i) == IF is(m, i, OptState(r.rows[m - 1])) THEN TRUE ELSE is(m, i, OptState(r.rows[m]))
    IN CASE r.len # (IF k = "ferro" THEN 1 ELSE 3) -> "optimize: number of results"
         [] Len(r.e) # Len(o.ids) \/ ~finite -> "optimize: result"
         [] ~UnitLength(k, res, "1e-9") -> "optimize: length of vectors"
         [] k = "antiferro" /\ ~VClose(r.q, VNum(e.q), "1e-12") -> "optimize: spiral vector of antiferro"
         [] Given(e) /\ RLt(RAdd(OptEnergy(o, k, N, start), RMul("1e-9", scale)), Er) -> "optimize: energy is higher than in the beginning"
         [] e.maxit = 0 /\ Given(e) /\ ~SameState(k, res, start, "1e-9") -> "optimize: state is changed in no steps"
         [] e.hist # "none" /\ (r.nrows = 0 \/ \E m \in DOMAIN r.rows : r.rows[m].width # 0) -> "optimize: table of history"
         [] e.hist # "none" /\ e.maxit # -1 /\ r.nrows > e.maxit + 1 -> "optimize: number of steps"
         [] e.hist # "none" /\ Given(e) /\ ~SameState(k, OptState(r.rows[1]), start, "2e-8") -> "optimize: first state of history"
         [] e.hist # "none" /\ ~SameState(k, OptState(r.rows[Len(r.rows)]), res, "2e-8") -> "optimize: last state of history"
         [] \E m \in DOMAIN r.rows : ~UnitLength(k, OptState(r.rows[m]), "1e-6") -> "optimize: length of vectors in history"
         [] \E m \in DOMAIN r.rows : ~near(RNum(r.rows[m].E), OptEnergy(o, k, N, OptState(r.rows[m])), "2e-7") -> "optimize: energy in history"
         [] e.hist # "none" /\ \E m \in 1..(r.nrows - 1) : RLt(RAdd(RNum(r.Es[m]), RMul("3e-8", scale)), RNum(r.Es[m + 1])) -> "optimize: energy grows"
         [] \E m \in pairs : \E i \in 1..(NTol(k) - 1) : ~reported(m, i) -> "optimize: torque in history"
         [] done /\ e.hist # "none" /\ r.nrows < 2 -> "optimize: no step is done"
         [] done /\ e.hist # "none" /\ RLt(RAdd(RNum(Tolerance(e, 1)), RMul("3e-8", scale)), RAbs(RSub(RNum(r.Es[r.nrows]), RNum(r.Es[r.nrows - 1]))))
               -> "optimize: energy is not converged"
         [] done /\ \E j \in OptVectors(k, res) :
               LET tol == RNum(Tolerance(e, IF j > Len(r.e) THEN 3 ELSE 2))
                   t == OptTorque(o, k, N, res, j)
               IN RLt(RAdd(RMul("20", tol), RMul("1e-8", scale)), VNorm(t))
               -> "optimize: torque"
         \* a state without torques is left alone
         [] k # "spiral" /\ Given(e) /\ e.maxit # 0
            /\ (\A j \in OptVectors(k, start) : RLe(VNorm(OptTorque(o, k, N, start, j)), RMul("1e-13", scale)))
            /\ ~SameState(k, res, start, "1e-6") -> "optimize: state without torques is changed"
         [] OTHER -> "ok"
=============================================================================
