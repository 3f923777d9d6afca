------------------------------ MODULE Vampire ------------------------------
(* Export to Vampire: the unit cell file (UCF), the material file (mat) and the
   file "input" of a Hamiltonian.  Files are sequences of lines.

   UCF, without lines of remarks ("#"):
     a b c                                 lengths of the vectors
     three lines                           vectors
     n m                                   numbers of atoms and of materials
     n lines "k x y z material"            k = 0, 1, ...; relative positions
     N tensorial
     N lines "k i j R1 R2 R3 Jxx ... Jzz"  Joule, convention of Vampire:
                                           -1/2 sum over ij (both), |e| = 1
   On-site terms are interactions of an atom with itself.                    *)
EXTENDS HamObs, Str

JouleOfmeV == "1.602176634e-22"
DataLines(l) == LET s == [k \in DOMAIN l |-> SStrip(SBefore(l[k], "#"))] IN SelectSeq(s, LAMBDA x : x # "")
Row(l) == SSplit(l)
Nums(w, f, t) == [k \in 1..(t - f + 1) |-> RNum(w[f + k - 1])]
Eps8 == "0.0000000051"
NearV(a, b) == \A k \in 1..3 : RLe(RAbs(RSub(a[k], b[k])), Eps8)

\* what is exported of a parameter
Exported(J, o) ==
    CASE o.mask = "transpose" -> MT(J)
      [] o.mask = "double" -> MScale(J, "2")
      [] o.mask = "zz" -> << <<"0", "0", "0">>, <<"0", "0", "0">>, <<"0", "0", J[3][3]>> >>
      [] OTHER -> LET J1 == IF o.dmi THEN J ELSE MSub(J, MAsym(J)) IN IF o.aniso THEN J1 ELSE MSub(J1, Aniso(J1))
\* numbers with d decimals of the mantissa; 1e-12: rounding of floating point numbers
MaxAbs(J) == LET S == {RAbs(J[r][c]) : r, c \in 1..3} IN CHOOSE x \in S : \A y \in S : RLe(y, x)
Ten0(d) == <<"1", "0.1", "0.01", "0.001", "0.0001", "0.00001", "0.000001", "1e-7", "1e-8", "1e-9", "1e-10", "1e-11", "1e-12", "1e-13">>[d + 1]
Printed(w, J, d, top) ==
    \A r, c \in 1..3 : RLe(RAbs(RSub(w[3 * r + c - 3], J[r][c])), RAdd(RMul(RMul("0.51", Ten0(d)), RAbs(J[r][c])), RMul("1e-12", top)))

InVampire(h) == SetByName(h, "vampire").st
VampireReady(h) == h.dc # Undef /\ h.sn # Undef /\ h.ef # Undef /\ (Sites(h) # {} => h.of # Undef)
Material(o, k) == IF o.mats = <<>> THEN k - 1 ELSE o.mats[k]
Materials(ids, o) == {Material(o, k) : k \in DOMAIN ids}

\* h: the Hamiltonian in the convention of Vampire, ids: its magnetic atoms in order
UcfVerdict(h, ids, o, lines) ==
    LET L == TLCEval(DataLines(lines))
        n == Len(ids)
        sizes == Row(L[1])
        counts == Row(L[5])
        arow(k) == Row(L[5 + k])
        total == Row(L[6 + n])
        N == Len(L) - 6 - n
        irow == TLCEval([k \in 1..N |-> Row(L[6 + n + k])])
        key(k) == <<ids[SInt(irow[k][2]) + 1], ids[SInt(irow[k][3]) + 1], <<SInt(irow[k][4]), SInt(irow[k][5]), SInt(irow[k][6])>>>>
        keys == TLCEval([k \in 1..N |-> key(k)])
        vals(b) == LET s == SelectSeq([k \in 1..N |-> k], LAMBDA k : keys[k] = b) IN [k \in DOMAIN s |-> irow[s[k]]]
        like(b) == LET l == LikeVals(h, b) IN [k \in DOMAIN l |-> MScale(Exported(l[k], o), JouleOfmeV)]
        top(b) == RMul(JouleOfmeV, LET l == LikeVals(h, b) S == {MaxAbs(l[k]) : k \in DOMAIN l} IN CHOOSE x \in S : \A y \in S : RLe(y, x))
        ok(w, J, b) == Printed(Nums(w, 7, 15), J, o.dec, top(b))
        bag(b) == LET w == vals(b) J == TLCEval(like(b))
                  IN /\ Len(w) = Len(J)
                     /\ \/ Len(J) = 1 /\ ok(w[1], J[1], b)
                        \/ Len(J) = 2 /\ ok(w[1], J[1], b) /\ ok(w[2], J[2], b)
                        \/ Len(J) = 2 /\ ok(w[1], J[2], b) /\ ok(w[2], J[1], b)
    IN CASE Len(L) < 6 + n -> "UCF: number of lines"
         [] Len(sizes) # 3 \/ \E k \in 1..3 : RLt(Eps8, RAbs(RSub(sizes[k], VNorm(h.cell[k])))) -> "UCF: lengths of vectors"
         [] \E k \in 1..3 : Len(Row(L[1 + k])) # 3 \/ ~NearV(Row(L[1 + k]), h.cell[k]) -> "UCF: vectors"
         [] Len(counts) # 2 \/ SInt(counts[1]) # n \/ SInt(counts[2]) # Cardinality(Materials(ids, o)) -> "UCF: numbers of atoms and materials"
         [] \E k \in 1..n : Len(arow(k)) # 5 \/ SInt(arow(k)[1]) # k - 1 -> "UCF: atoms"
         [] \E k \in 1..n : ~NearV(SubSeq(arow(k), 2, 4), h.A[ids[k]].pos) -> "UCF: positions"
         [] \E k \in 1..n : SInt(arow(k)[5]) # Material(o, k) -> "UCF: materials"
         [] Len(total) # 2 \/ SInt(total[1]) # N \/ total[2] # "tensorial" -> "UCF: number of interactions"
         [] \E k \in 1..N : Len(irow[k]) # 15 \/ SInt(irow[k][1]) # k - 1 -> "UCF: interactions"
         [] Ran(keys) # LikeKeys(h) -> "UCF: pairs of atoms"
         [] \E b \in LikeKeys(h) : ~bag(b) -> "UCF: values"
         [] OTHER -> "ok"

\* entries of the material file: <<key, value>>, without spaces and remarks
Entries(lines) ==
    LET L == DataLines(lines)
        p(l) == SSplitOn(SErase(SBefore(l, "!"), " "), "=")
    IN [k \in DOMAIN L |-> IF Len(p(L[k])) = 2 THEN p(L[k]) ELSE <<"odd", L[k]>>]
Named1(E, key) == SelectSeq(E, LAMBDA x : x[1] = key)
MatVerdict(h, ids, o, lines) ==
    LET E == TLCEval(Entries(lines))
        top == IF Materials(ids, o) = {} THEN 0 ELSE (CHOOSE x \in Materials(ids, o) : \A y \in Materials(ids, o) : y <= x) + 1
        has(key, good(_)) == LET s == Named1(E, key) IN Len(s) = 1 /\ good(s[1][2])
        key(m, x) == "material[" \o ToString(m + 1) \o "]:" \o x
        first(m) == h.A[ids[CHOOSE k \in DOMAIN ids : Material(o, k) = m /\ \A j \in 1..(k - 1) : Material(o, j) # m]]
        dir(a, v) == LET w == SSplitOn(v, ",") u == VUnit(a.spinv) IN IF a.spin = "0" THEN v = "random" ELSE Len(w) = 3 /\ NearV(w, u)
    IN CASE \E k \in DOMAIN E : E[k][1] = "odd" -> "mat: lines"
         [] ~has("material:num-materials", LAMBDA v : v = ToString(top)) -> "mat: number of materials"
         [] \E m \in Materials(ids, o) : ~has(key(m, "material-name"), LAMBDA v : v = first(m).name) -> "mat: names"
         [] \E m \in Materials(ids, o) : ~has(key(m, "atomic-spin-moment"), LAMBDA v : RClose(v, first(m).spin, TOL)) -> "mat: moments"
         [] \E m \in Materials(ids, o) : ~has(key(m, "initial-spin-direction"), LAMBDA v : dir(first(m), v)) -> "mat: directions"
         [] Cardinality({k \in DOMAIN E : SHas(E[k][1], ":material-name")}) # Cardinality(Materials(ids, o)) -> "mat: materials"
         [] OTHER -> "ok"
InputVerdict(seed, lines) ==
    LET E == Entries(lines)
    IN IF Named1(E, "material:file") # <<<<"material:file", seed \o ".mat">>>> THEN "input: material file"
       ELSE IF Named1(E, "material:unit-cell-file") # <<<<"material:unit-cell-file", seed \o ".UCF">>>> THEN "input: unit cell file" ELSE "ok"

\* e: opts [aniso, dmi, mask, dec, mats], ids, and what was written: ucf, mat, input
VampireOutcome(h, e) ==
    LET need == e.via # "mat"     \* the material file does not depend on notation
        v == TLCEval(InVampire(h))
        u == IF need THEN UcfVerdict(v, e.ids, e.opts, e.ucf) ELSE "ok"
        m == IF e.via \in {"mat", "all"} THEN MatVerdict(h, e.ids, e.opts, e.mat) ELSE "ok"
        i == IF e.via = "all" THEN InputVerdict(e.seed, e.input) ELSE "ok"
    IN IF need /\ ~VampireReady(h) THEN [res |-> "NotationError", v |-> "ok"]
       ELSE [res |-> "ok", v |-> IF e.res # "ok" THEN "ok"
                                 ELSE IF Ran(e.ids) # Magnetic(h) THEN "magnetic atoms"
                                 ELSE IF u # "ok" THEN u ELSE IF m # "ok" THEN m ELSE i]
=============================================================================
