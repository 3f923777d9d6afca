------------------------------ MODULE HamStep ------------------------------
(* Events on a heap of Hamiltonians and of objects made from them: the outcome
   the specification requires for an event.  Used by HamTrace (recorded traces)
   and by MCHeap (exploration of sequences of events).                        *)
EXTENDS HamObs, Optimize, Lswt

Param1(e) == BuildParam(e.J)
P(e) == IF "p" \in DOMAIN e THEN e.p ELSE [k |-> "any"]

\* A new Hamiltonian on the crystal of h, with a notation (none, a name, a tuple)
Fresh(h, e) ==
    LET n == EmptyHam(h.A, h.cell, h.atoms)
    IN CASE e.v = <<>> -> Ok(n)
         [] Len(e.v) = 1 -> SetByName(n, e.v[1])
         [] OTHER -> SetByTuple(n, e.v)

\* Outcome of an event in state h
Outcome(h, e) ==
    CASE e.op = "addx" -> AddExchange(h, e.a, e.b, e.R, Param1(e))
      [] e.op = "addx_bad" -> Err(h, "error")
      [] e.op = "addo" -> AddOnSite(h, e.a, Param1(e))
      [] e.op = "delx" -> RemoveExchange(h, e.a, e.b, e.R, e.strict)
      [] e.op = "delo" -> RemoveOnSite(h, e.a, e.strict)
      [] e.op = "hasx" -> HasExchange(h, e.a, e.b, e.R)
      [] e.op = "haso" -> HasOnSite(h, e.a)
      [] e.op = "getx" -> GetExchange(h, e.a, e.b, e.R)
      [] e.op = "geto" -> GetOnSite(h, e.a)
      [] e.op = "badkey" -> Err(h, "error")
      [] e.op = "adda" -> AddAtom(h, e.a.id)
      [] e.op = "dela" -> RemoveAtom(h, e.a)
      [] e.op = "setdc" -> Ok(SetDc(h, e.v))
      [] e.op = "setsn" -> Ok(SetSn(h, e.v))
      [] e.op = "setef" -> Ok(SetEf(h, RNum(e.v)))
      [] e.op = "setof" -> Ok(SetOf(h, RNum(e.v)))
      [] e.op = "setname" -> SetByName(h, e.v)
      [] e.op = "settuple" -> SetByTuple(h, e.v)
      [] e.op = "setbad" -> Err(h, "error")
      [] e.op = "read" -> ReadComponent(h, e.v)
      [] e.op = "readall" -> ReadNotation(h)
      [] e.op = "filter" -> Ok(Filter(h, e.lo, e.hi, P(e)))
      [] e.op = "filtered" -> Ok(h)
      [] e.op = "copy" -> Ok(h)
      [] e.op = "init" -> IF Fresh(h, e).res = "ok" THEN Ok(h) ELSE Err(h, "error")
      [] e.op = "setq" -> SetSpiral(h, e.v)
      [] e.op = "setn" -> SetCone(h, e.v)
      [] e.op = "look" -> Ok(h)
      [] e.op = "fail" -> Failure(h, e)
      \* the standard cell; its matrix (empty: there is none) is chosen by wulfric
      [] e.op = "std" -> IF e.S = <<>> THEN Err(h, "error") ELSE Ok(Recell(h, MNum(e.S)))
      [] e.op = "shift" -> IF h.atoms = <<>> THEN Err(h, "error") ELSE Ok(ShiftTo(h, VNum(e.v)))
      [] e.op = "cure" -> IF h.atoms = <<>> THEN Err(h, "error") ELSE Ok(CureNegative(h))
      [] e.op = "setcell" -> Ok([h EXCEPT !.cell = MNum(e.v)])
      [] e.op = "setpos" -> IF ~Resolvable(h, e.a) THEN Err(h, "error") ELSE Ok([h EXCEPT !.A[Resolve(h, e.a)].pos = VNum(e.v)])
      [] e.op = "setg" -> IF ~Resolvable(h, e.a) THEN Err(h, "error") ELSE Ok([h EXCEPT !.A[Resolve(h, e.a)].g = RNum(e.v)])
      [] e.op = "setspin" -> IF ~Resolvable(h, e.a) THEN Err(h, "error")
                             ELSE Ok([h EXCEPT !.A[Resolve(h, e.a)] = [@ EXCEPT !.spinv = VNum(e.v), !.spin = VNorm(VNum(e.v))]])

\* The object an operation creates (added at the end of the heap)
Created(h, e) ==
    CASE e.op = "copy" -> <<h>>
      [] e.op = "init" -> <<Fresh(h, e).st>>
      [] e.op = "filtered" -> <<Filter(h, e.lo, e.hi, P(e))>>
      [] OTHER -> <<>>

ValMatch(e, r) ==
    CASE r.res # "ok" -> TRUE
      [] e.op \in {"hasx", "haso"} -> e.val = r.val
      [] e.op \in {"getx", "geto"} -> MClose(e.val, r.val, TOL)
      [] e.op = "fail" -> TRUE
      [] e.op = "read" -> IF e.v \in {"dc", "sn"} THEN e.val = r.val ELSE RClose(e.val, r.val, TOL)
      [] e.op = "readall" -> /\ e.val[1] = r.val[1] /\ e.val[2] = r.val[2]
                             /\ RClose(e.val[3], r.val[3], TOL) /\ RClose(e.val[4], r.val[4], TOL)
      [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Objects made from a Hamiltonian                                           *)
MakeOps == {"energy", "disp", "crystal"}
AuxOps == {"eferro", "eafm", "espiral", "efield", "egs", "espins", "eopt", "efail", "dh", "domega", "domegas", "crymut"}

\* [res, ax: objects that are added]
Make(h, e) ==
    CASE e.op = "energy" ->
            IF ~EnergyReady(h) THEN [res |-> "NotationError", ax |-> <<>>]
            ELSE [res |-> "ok", ax |-> <<[k |-> "energy"] @@ EnergyOf(h, e.ids)>>]
      [] e.op = "disp" -> [res |-> "ok", ax |-> <<[k |-> "disp", h |-> InSpinW(h), ids |-> e.ids]>>]
      [] OTHER -> [res |-> "ok", ax |-> <<[k |-> "crystal", atoms |-> h.atoms, A |-> h.A, cell |-> h.cell]>>]

\* directions given for the magnetic atoms, in order
Dirs(o, l) == [a \in Ran(o.ids) |-> VNum(l[CHOOSE k \in DOMAIN o.ids : o.ids[k] = a])]
GoodDirs(o, l) == Len(l) = Len(o.ids) /\ \A k \in DOMAIN l : Len(l[k]) = 3
Vals(o, l) == [a \in Ran(o.ids) |-> RNum(l[CHOOSE k \in DOMAIN o.ids : o.ids[k] = a])]

FramesOk(o, f) == /\ Len(f.u) = Len(o.ids) /\ Len(f.v) = Len(o.ids)
                  /\ \A k \in DOMAIN o.ids : FrameOk(o.h.A[o.ids[k]].spinv, f.u[k], f.v[k], "1e-7")
Uv(f) == [k \in DOMAIN f |-> <<f[k][1], f[k][2], f[k][3]>>]
NumU(f) == TLCEval([k \in DOMAIN f |-> CNumMat(<<f[k]>>)[1]])
NumV(f) == TLCEval([k \in DOMAIN f |-> VNum(f[k])])

SameNumber(a, b) == a = b \/ (RIsNum(a) /\ RIsNum(b) /\ RClose(a, b, TOL))
AllZero(E) == \A k \in DOMAIN E : RIsNum(E[k]) /\ RNum(E[k]) = "0"

OmegaVerdict(o, e) ==
    LET n == Len(o.ids)
        H == SpinWave(o.h, o.ids, NumU(e.val.u), NumV(e.val.v), VNum(e.kp))
        p == MinPivot(H)
        m == MinPivot(CNeg(H))
        G == e.val.G
        diag(t) == /\ AllNumbers(e.val.E) /\ Len(e.val.E) = 2 * n
                   /\ \A r \in DOMAIN G : \A c \in DOMAIN G[r] : RIsNum(G[r][c][1]) /\ RIsNum(G[r][c][2])
                   /\ Diagonalises(H, e.val.E, G, t)
        good(t) == diag(t) /\ Canonical(G, n, t)
        \* no frequencies: zeros, or nothing at all
        none(E) == IF "none" \in DOMAIN e THEN (IF e.none THEN \A k \in DOMAIN E : ~RIsNum(E[k]) ELSE AllZero(E)) ELSE AllZero(E)
        im == IF "im" \in DOMAIN e.val THEN e.val.im ELSE <<>>
    IN CASE ~Hermitian(H, "1e-9") -> "ok"     \* not a physical Hamiltonian
         [] Len(e.val.w) # n \/ Len(e.val.E) # 2 * n -> "number of frequencies"
         [] \E k \in 1..n : ~SameNumber(e.val.w[k], e.val.E[k]) -> "frequencies with and without transformation"
         [] (RLt("1e-5", p) \/ RLt("1e-5", m)) /\ (\E k \in DOMAIN im : ~RIsNum(im[k]) \/ RLt("1e-9", RAbs(RNum(im[k])))) ->
              "imaginary part of a frequency"
         [] RLt("1e-5", p) \/ RLt("1e-5", m) ->
              IF ~good("1e-6") THEN "frequencies do not diagonalise the matrix"
              ELSE IF \E k \in 1..n : RLe(e.val.w[k], "0") /\ RLt("1e-5", p) THEN "frequency is not positive" ELSE "ok"
         [] RLt(p, "-1e-5") /\ RLt(m, "-1e-5") ->
              IF none(e.val.w) THEN "ok" ELSE "frequencies of unstable state"
         \* on the boundary of stability
         [] OTHER -> IF none(e.val.E) \/ diag("1e-4") THEN "ok" ELSE "frequencies of marginal state"

\* [res, ax: the object after the event, val, bad: verdict about the value]
AuxOutcome(o, e) ==
    LET res(c, v) == IF c THEN [res |-> "ok", ax |-> o, val |-> v, bad |-> "ok"]
                     ELSE [res |-> "error", ax |-> o, val |-> "none", bad |-> "ok"]
        same(v) == [res |-> "ok", ax |-> o, val |-> "none", bad |-> v]
        upd(c, x) == [res |-> IF c THEN "ok" ELSE "error", ax |-> IF c THEN x ELSE o, val |-> "none", bad |-> "ok"]
    IN CASE e.op = "eferro" -> res(GoodDirs(o, e.e), IF GoodDirs(o, e.e) THEN Ferro(o, Dirs(o, e.e)) ELSE "none")
         [] e.op = "eafm" -> LET c == GoodDirs(o, e.e) /\ Len(e.n) = 3 /\ Len(e.q) = 3
                             IN res(c, IF c THEN Antiferro(o, Dirs(o, e.e), VNum(e.n), e.N) ELSE "none")
         [] e.op = "espiral" -> LET c == GoodDirs(o, e.e) /\ Len(e.n) = 3 /\ Len(e.q) = 3
                                IN res(c, IF c THEN Spiral(o, Dirs(o, e.e), VNum(e.n), VNum(e.q)) ELSE "none")
         \* unusable values
         [] e.op = "efail" -> upd(FALSE, o)
         [] e.op = "efield" -> upd(Len(e.v) \in {0, 3}, [o EXCEPT !.H = IF Len(e.v) = 3 THEN VNum(e.v) ELSE <<>>])
         [] e.op = "egs" -> upd(Len(e.v) = Len(o.ids), IF Len(e.v) = Len(o.ids) THEN [o EXCEPT !.g = Vals(o, e.v)] ELSE o)
         [] e.op = "espins" -> upd(Len(e.v) = Len(o.ids), IF Len(e.v) = Len(o.ids) THEN [o EXCEPT !.S = Vals(o, e.v)] ELSE o)
         [] e.op = "eopt" -> LET c == OptValid(o, e)
                             IN [res |-> IF c THEN "ok" ELSE "error", ax |-> o, val |-> "none",
                                 bad |-> IF c /\ e.res = "ok" THEN OptVerdict(o, e) ELSE "ok"]
         [] e.op = "dh" -> same(IF e.res # "ok" THEN "ok"
                                ELSE IF ~FramesOk(o, e.val) THEN "local frames"
                                ELSE LET H == SpinWave(o.h, o.ids, NumU(e.val.u), NumV(e.val.v), VNum(e.kp))
                                     IN IF ~CMatClose(e.val.h, H, "1e-7") THEN "spin-wave matrix"
                                        ELSE IF "J" \in DOMAIN e.val THEN PartsVerdict(o.h, o.ids, NumV(e.val.v), H, e.val, VNum(e.kp))
                                        ELSE "ok")
         [] e.op = "domega" -> same(IF e.res # "ok" THEN "ok"
                                    ELSE IF ~FramesOk(o, e.val) THEN "local frames" ELSE OmegaVerdict(o, e))
         [] e.op = "domegas" -> same(IF e.res # "ok" THEN "ok"
                                     ELSE IF Len(e.val.W) # Len(o.ids) \/ \E k \in DOMAIN e.val.W : Len(e.val.W[k]) # Len(e.val.ws)
                                     THEN "shape of spectrum"
                                     ELSE IF \E k \in DOMAIN e.val.W : \E l \in DOMAIN e.val.ws : ~SameNumber(e.val.W[k][l], e.val.ws[l][k])
                                     THEN "spectrum" ELSE "ok")
         [] e.op = "crymut" ->
              CASE e.v = "remove" -> upd(Len(o.atoms) > 0, [o EXCEPT !.atoms = SelectSeq(@, LAMBDA x : x # e.a)])
                [] e.v = "spin" -> upd(TRUE, [o EXCEPT !.A[e.a] = [@ EXCEPT !.spinv = VNum(e.w), !.spin = VNorm(VNum(e.w))]])
                [] e.v = "move" -> upd(TRUE, [o EXCEPT !.A[e.a] = [@ EXCEPT !.pos = VNum(e.w)]])
                [] OTHER -> upd(TRUE, o)

AuxVal(e, r) == r.res # "ok" \/ e.op \notin {"eferro", "eafm", "espiral"} \/ RClose(e.val, r.val, "1e-8")

CrystalVerdict(o, s) ==
    CASE s.atoms # o.atoms -> "crystal: atoms"
      [] ~MClose(s.cell, o.cell, TOL) -> "crystal: cell"
      [] \E k \in DOMAIN s.atoms : ~AtomMatch(o.A[s.atoms[k]], s.adata[k]) -> "crystal: atom data"
      [] OTHER -> "ok"

EnergyVerdict(o, s) ==
    CASE Len(s.S) # Len(o.ids) \/ Len(s.g) # Len(o.ids) -> "energy: number of atoms"
      [] \E k \in DOMAIN o.ids : ~RClose(s.S[k], o.S[o.ids[k]], TOL) -> "energy: spins"
      [] \E k \in DOMAIN o.ids : ~RClose(s.g[k], o.g[o.ids[k]], TOL) -> "energy: g factors"
      [] ~VClose(IF s.H = <<>> THEN VZero ELSE s.H, IF o.H = <<>> THEN VZero ELSE o.H, TOL) -> "energy: field"
      [] OTHER -> "ok"
ObjectVerdict(o, s) == IF o.k = "energy" THEN EnergyVerdict(o, s) ELSE CrystalVerdict(o, s)

\* what the event has to be: new objects, outcome and verdict about the value
Step(heap, aux, e) ==
    CASE e.op \in MakeOps ->
           LET r == Make(heap[e.o], e)
           IN [heap |-> heap, aux |-> aux \o r.ax, res |-> r.res, v |-> "ok"]
      [] e.op \in AuxOps ->
           LET r == AuxOutcome(aux[e.x], e)
           IN [heap |-> heap, aux |-> [aux EXCEPT ![e.x] = r.ax], res |-> r.res,
               v |-> IF ~ResMatch(e.res, r.res) THEN "ok" ELSE IF ~AuxVal(e, r) THEN "energy" ELSE r.bad]
      [] OTHER ->
           LET r == Outcome(heap[e.o], e)
           IN [heap |-> [heap EXCEPT ![e.o] = r.st] \o (IF r.res = "ok" THEN Created(heap[e.o], e) ELSE <<>>),
               aux |-> aux, res |-> r.res,
               v |-> IF ~ResMatch(e.res, r.res) THEN "ok"
                     ELSE IF e.op = "fail" /\ e.res # "ok" /\ e.files # "same" THEN "files after an error"
                     ELSE IF ValMatch(e, r) THEN "ok" ELSE "returned value"]
=============================================================================
