------------------------------ MODULE MCEnergy ------------------------------
(* Exhaustive exploration of EnergyClassic and Lswt over small Hamiltonians,
   notations, directions, cone axes and wave vectors (all exact numbers).
   A state is a case: a Hamiltonian h in a notation, the same Hamiltonian in
   another notation t, directions, axis, integers N and an angle.            *)
EXTENDS EnergyClassic, Lswt, Json, SequencesExt

CONSTANTS Kind,    \* "ferro", "cone", "lswt"
          Size,    \* 1: small universe, 2: larger
          Export

VARIABLES c, done
vars == <<c, done>>

A1 == "A__1"
B2 == "B__2"
X == <<1, 0, 0>>
Y == <<0, 1, -1>>
AT == [x \in {A1, B2} |->
         IF x = A1 THEN [name |-> "A", idx |-> 1, rank |-> 1, spin |-> "2", spinv |-> <<"0", "0", "2">>, pos |-> <<"0", "0", "0">>, g |-> "2", q |-> Undef]
         ELSE [name |-> "B", idx |-> 2, rank |-> 2, spin |-> "5/2", spinv |-> <<"0", "-3/2", "2">>, pos |-> <<"1/4", "0", "1/2">>, g |-> "9/4", q |-> Undef]]
Cell == << <<"4", "0", "0">>, <<"1", "3", "0">>, <<"0", "0", "5">> >>
M1 == << <<"1", "2", "0">>, <<"0", "1", "-1">>, <<"3", "0", "1">> >>
M2 == << <<"-2", "1", "0">>, <<"-1", "0", "1/2">>, <<"0", "0", "2">> >>
MS == << <<"1", "1/2", "0">>, <<"1/2", "-1", "1">>, <<"0", "1", "0">> >>
Bnd == {<<A1, B2, R0>>, <<A1, A1, X>>, <<B2, A1, Y>>}
Exs == UNION {[T -> {M1, M2}] : T \in {S \in SUBSET Bnd : Cardinality(S) <= Size}}
Ons == {<<>>, [a \in {A1} |-> MS], [a \in {A1, B2} |-> MS]}
Nots == {<<"true", "false", "1/2", "1">>, <<"false", "true", "-1", "-2">>, <<"true", "true", "-1/2", "-1">>, <<"false", "false", "1", "1">>}

\* one sided bonds, declared in the notation t
Declare(ex, on, t) ==
    SetAll([EmptyHam(AT, Cell, <<A1, B2>>) EXCEPT !.ex = ex, !.on = on], t)
Ids(h) == SelectSeq(<<A1, B2>>, LAMBDA a : a \in Magnetic(h))

Dir == {<<"0", "0", "1">>, <<"3/5", "0", "-4/5">>, <<"0", "2", "0">>, <<"2/3", "1/3", "-2/3">>}
Ax == {<<"0", "0", "1">>, <<"4/5", "3/5", "0">>, <<"2", "-1", "2">>}
Ns == {<<1, 0, 0>>, <<0, 1, 1>>, <<1, -1, 0>>}
Flds == {<<>>, <<"1", "0", "-2">>}
\* cosine and sine of the angle per unit of R[1] + 2 R[2]
Ang == {<<"1", "0">>, <<"3/5", "4/5">>, <<"-4/5", "3/5">>}

Cases ==
    CASE Kind = "ferro" ->
           {[h |-> Declare(ex, on, t), t |-> s, e |-> [a \in {A1, B2} |-> IF a = A1 THEN d1 ELSE d2], H |-> f] :
              <<ex, on, t, s, d1, d2, f>> \in Exs \X Ons \X Nots \X Nots \X Dir \X {<<"0", "0", "1">>, <<"2/3", "1/3", "-2/3">>} \X Flds}
      [] Kind = "cone" ->
           {[h |-> Declare(ex, on, <<"true", "false", "1/2", "1">>), t |-> s, e |-> [a \in {A1, B2} |-> IF a = A1 THEN d1 ELSE d2],
             H |-> f, n |-> n, N |-> N, cs |-> cs] :
              <<ex, on, s, d1, d2, f, n, N, cs>> \in
                 {x \in Exs : Cardinality(DOMAIN x) <= 1} \X Ons \X {<<"false", "true", "-1", "-2">>} \X {<<"0", "0", "1">>, <<"3/5", "0", "-4/5">>}
                 \X {<<"0", "0", "1">>, <<"2/3", "1/3", "-2/3">>} \X Flds \X Ax \X Ns \X Ang}
      [] OTHER ->
           {[h |-> Declare(ex, on, t), t |-> s, k |-> k] :
              <<ex, on, t, s, k>> \in Exs \X Ons \X Nots \X Nots \X {<<"0", "0", "0">>, <<"1/2", "-1/3", "1">>}}

\* value of the ferro energy and its field part
E0(h) == [EnergyOf(h, Ids(h)) EXCEPT !.H = c.H]
Sub(h) == [a \in Magnetic(h) |-> c.e[a]]

RECURSIVE Pow(_, _)
Pow(z, k) == IF k = 0 THEN <<"1", "0">> ELSE IF k > 0 THEN CMul(z, Pow(z, k - 1)) ELSE CMul(CConj(z), Pow(z, k + 1))
CS(h) == [R \in {b[3] : b \in Bonds(h)} |-> Pow(c.cs, R[1] + 2 * R[2])]

\* frames for the two atoms, right handed
U(a) == IF a = A1 THEN << <<"1", "0">>, <<"0", "1">>, <<"0", "0">> >>
        ELSE << <<"1", "0">>, <<"0", "4/5">>, <<"0", "3/5">> >>
V(a) == IF a = A1 THEN <<"0", "0", "1">> ELSE <<"0", "-3/5", "4/5">>
Us(h) == [k \in DOMAIN Ids(h) |-> U(Ids(h)[k])]
Vs(h) == [k \in DOMAIN Ids(h) |-> V(Ids(h)[k])]

JHam(h) == [dc |-> h.dc, sn |-> h.sn, ef |-> h.ef, of |-> h.of, atoms |-> h.atoms,
            ex |-> SetToSeq({<<b[1], b[2], b[3], h.ex[b]>> : b \in DOMAIN h.ex}),
            on |-> SetToSeq({<<a, h.on[a]>> : a \in DOMAIN h.on})]
JAtoms == SetToSeq({[id |-> x, name |-> AT[x].name, idx |-> AT[x].idx, rank |-> AT[x].rank, g |-> AT[x].g,
                     spin |-> AT[x].spin, spinv |-> AT[x].spinv, pos |-> AT[x].pos] : x \in DOMAIN AT})
ASSUME Export => PrintT("HD|" \o ToJson([A |-> JAtoms, cell |-> Cell]))

EList(h) == [k \in DOMAIN Ids(h) |-> c.e[Ids(h)[k]]]
Out(h) ==
    CASE Kind = "ferro" -> [op |-> "ferro", pre |-> JHam(h), e |-> EList(h), H |-> c.H, val |-> Ferro(E0(h), Sub(h))]
      [] Kind = "cone" -> [op |-> "cone", pre |-> JHam(h), e |-> EList(h), H |-> c.H, n |-> c.n, N |-> c.N,
                           val |-> Antiferro(E0(h), Sub(h), c.n, c.N)]
      [] OTHER -> [op |-> "lswt", pre |-> JHam(h), k |-> c.k, u |-> Us(h), v |-> Vs(h),
                   val |-> SpinWave(InSpinW(h), Ids(h), Us(h), Vs(h), c.k)]

Init == c \in {x \in Cases : Magnetic(x.h) # {}} /\ done = 0
Next == /\ done = 0 /\ done' = 1 /\ UNCHANGED c
        /\ Export => PrintT("TR|" \o ToJson(Out(c.h)))

-----------------------------------------------------------------------------
\* Checked once per case
Once(p) == done = 1 => p
\* C08: independent of the notation and of the lengths of the vectors
FerroNotation == Once(Kind = "ferro" => Ferro(E0(SetAll(c.h, c.t)), Sub(c.h)) = Ferro(E0(c.h), Sub(c.h)))
FerroLength == Once(Kind = "ferro" => Ferro(E0(c.h), [a \in Magnetic(c.h) |-> VScale(c.e[a], IF a = A1 THEN "3" ELSE "1/7")]) = Ferro(E0(c.h), Sub(c.h)))
\* C08: the energy is the quadratic form of the physical coefficients
QuadForm(h) ==
    LET u == Units(Sub(h))
        P == Phys(h)
    IN RSumF([k \in DOMAIN P |-> MForm(u[k[1]], P[k], u[k[2]])], DOMAIN P)
FerroPhysics == Once((Kind = "ferro" /\ c.H = <<>>) => Ferro(E0(c.h), Sub(c.h)) = QuadForm(c.h))
\* C09: averages are the documented closed forms
ClosedEx(h, m, f(_)) ==
    LET u == Units(Sub(h))
        x == [b \in Bonds(h) |-> RMul(RMul(h.A[b[1]].spin, h.A[b[2]].spin), MForm(u[b[1]], f(b), u[b[2]]))]
    IN RMul(h.ef, RSumF(x, DOMAIN x))
ClosedOn(h, m, f(_)) ==
    LET u == Units(Sub(h))
        y == [a \in Sites(h) |-> RMul(RMul(h.A[a].spin, h.A[a].spin), MForm(u[a], f(h.on[a]), u[a]))]
        z == [a \in Magnetic(h) |-> RMul(RMul(h.A[a].g, h.A[a].spin), RMul(VDot(c.H, m), VDot(m, u[a])))]
    IN RAdd(RMul(h.of, RSumF(y, DOMAIN y)), IF c.H = <<>> THEN "0" ELSE RMul(MuB, RSumF(z, DOMAIN z)))
Sgn(R) == IF Even(c.N[1] * R[1] + c.N[2] * R[2] + c.N[3] * R[3]) THEN "1" ELSE "-1"
ClosedA == Once(Kind = "cone" =>
    LET h == E0(c.h).h
        m == VUnit(c.n)
    IN Antiferro(E0(c.h), Sub(c.h), c.n, c.N) =
         RAdd(ClosedOn(h, m, LAMBDA J : ClosedAntiferro(J, m, "1")), ClosedEx(h, m, LAMBDA b : ClosedAntiferro(h.ex[b], m, Sgn(b[3])))))
ClosedS == Once(Kind = "cone" =>
    LET h == E0(c.h).h
        m == VUnit(c.n)
        cs == CS(h)
    IN SpiralCS(E0(c.h), Sub(c.h), c.n, cs) =
         RAdd(ClosedOn(h, m, LAMBDA J : ClosedSpiral(J, m, "1", "0")), ClosedEx(h, m, LAMBDA b : ClosedSpiral(h.ex[b], m, cs[b[3]][1], cs[b[3]][2]))))
ConeNotation == Once(Kind = "cone" =>
    /\ Antiferro(E0(SetAll(c.h, c.t)), Sub(c.h), c.n, c.N) = Antiferro(E0(c.h), Sub(c.h), c.n, c.N)
    /\ SpiralCS(E0(SetAll(c.h, c.t)), Sub(c.h), c.n, CS(SetAll(c.h, c.t))) = SpiralCS(E0(c.h), Sub(c.h), c.n, CS(c.h)))
\* C09: the average does not depend on where it starts: four angles turned by any angle give the same
SpiralTurned == Once(Kind = "cone" =>
    LET m == VUnit(c.n)
        turned == [a \in Magnetic(c.h) |-> Rotate(m, "3/5", "4/5", VUnit(c.e[a]))]
    IN SpiralCS(E0(c.h), turned, c.n, CS(c.h)) = SpiralCS(E0(c.h), Sub(c.h), c.n, CS(c.h)))
\* C11: independent of the notation (up to the rounding of the phases), Hermitian
LswtNotation == Once(Kind = "lswt" =>
    InSpinW(SetAll(c.h, c.t)) = InSpinW(c.h))
LswtHermitian == Once(Kind = "lswt" =>
    Hermitian(SpinWave(InSpinW(c.h), Ids(c.h), Us(c.h), Vs(c.h), c.k), "1e-30"))
\* frames of the universe are right handed
LswtFrames == Once(Kind = "lswt" => \A k \in DOMAIN Ids(c.h) : FrameOk(AT[Ids(c.h)[k]].spinv, Us(c.h)[k], Vs(c.h)[k], "0"))
\* a uniform rotation of the frames u -> u exp(i phi) does not change the blocks on the diagonal
LswtGauge == Once(Kind = "lswt" =>
    LET z == <<"3/5", "4/5">>
        turn(u) == <<CMul(u[1], z), CMul(u[2], z), CMul(u[3], z)>>
        h1 == SpinWave(InSpinW(c.h), Ids(c.h), Us(c.h), Vs(c.h), c.k)
        h2 == SpinWave(InSpinW(c.h), Ids(c.h), [k \in DOMAIN Ids(c.h) |-> turn(Us(c.h)[k])], Vs(c.h), c.k)
        n == Len(Ids(c.h))
    IN \A p \in 1..n : \A r \in 1..n :
          /\ CClose(h1[p][r], h2[p][r], "1e-30") /\ CClose(h1[p + n][r + n], h2[p + n][r + n], "1e-30")
          /\ CClose(CMul(h1[p][r + n], CMul(z, z)), h2[p][r + n], "1e-30"))
=============================================================================
