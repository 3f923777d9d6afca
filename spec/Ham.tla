-------------------------------- MODULE Ham --------------------------------
(* State and operations of a spin Hamiltonian (magnopy.SpinHamiltonian).

   A Hamiltonian is a record
     A     : static description of every atom the user may mention: a function
             from atom ids ("name__index") to [name, idx, rank, spin, pos]
             (rank orders atoms by index, then name; spin > 0; pos is relative)
     cell  : 3x3 matrix, rows are lattice vectors
     atoms : sequence of ids of atoms that are in the crystal
     dc, sn: double counting, spin normalised: "undef", "true" or "false"
     ef, of: exchange and on-site factors: "undef" or a number
     ex    : function from bonds <<a, b, R>> to matrices
     on    : function from atoms to matrices
     q, n  : spiral vector and cone axis, <<>> (not set) or a vector

   Every operation of the public interface is an operator that maps a state and
   arguments to an outcome
     [st |-> new state, res |-> "ok" or kind of error, val |-> returned value]
   so the same text is explored exhaustively by MCHam, exported for replay in
   the real code, and used as the oracle for traces recorded from it.        *)
EXTENDS Param, TLC

Undef == "undef"
B2S(b) == IF b THEN "true" ELSE "false"

R0 == <<0, 0, 0>>
RNegV(R) == <<-R[1], -R[2], -R[3]>>
Mirror(b) == <<b[2], b[1], RNegV(b[3])>>
SelfMirror(b) == b[1] = b[2] /\ b[3] = R0

\* The bond of a mirrored pair that stays when there is no double counting
RPos(R) == \/ R[1] > 0
           \/ R[1] = 0 /\ R[2] > 0
           \/ R[1] = 0 /\ R[2] = 0 /\ R[3] > 0
IsCanon(h, b) == \/ RPos(b[3])
                 \/ b[3] = R0 /\ h.A[b[1]].rank <= h.A[b[2]].rank
Canon(h, b) == IF IsCanon(h, b) THEN b ELSE Mirror(b)
CanonSet(h) == {Canon(h, b) : b \in DOMAIN h.ex}

Bonds(h) == DOMAIN h.ex
Sites(h) == DOMAIN h.on
AtomSet(h) == Ran(h.atoms)

Ok(h) == [st |-> h, res |-> "ok", val |-> "none"]
OkV(h, v) == [st |-> h, res |-> "ok", val |-> v]
Err(h, kind) == [st |-> h, res |-> kind, val |-> "none"]

EmptyHam(A, cell, atoms) ==
    [A |-> A, cell |-> cell, atoms |-> atoms, dc |-> Undef, sn |-> Undef,
     ef |-> Undef, of |-> Undef, ex |-> <<>>, on |-> <<>>, q |-> <<>>, n |-> <<>>]

-----------------------------------------------------------------------------
(* References to atoms.  [k |-> "obj", id |-> i]: an Atom object;
   [k |-> "name", id |-> s]: a name, resolved among the atoms of the crystal;
   [k |-> "full", id |-> i]: a full name "name__index".                      *)
Named(h, s) == {a \in AtomSet(h) : h.A[a].name = s}
Resolvable(h, r) == CASE r.k = "obj"  -> TRUE
                      [] r.k = "full" -> r.id \in AtomSet(h)
                      [] OTHER        -> Cardinality(Named(h, r.id)) = 1
Resolve(h, r) == IF r.k = "name" THEN CHOOSE a \in Named(h, r.id) : TRUE ELSE r.id

WithAtom(h, a) == IF a \in AtomSet(h) THEN h ELSE [h EXCEPT !.atoms = Append(@, a)]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]

-----------------------------------------------------------------------------
(* Container operations                                                      *)
AddExchange(h, r1, r2, R, J) ==
    IF Len(R) # 3 \/ ~Resolvable(h, r1) \/ ~Resolvable(h, r2) THEN Err(h, "error")
    ELSE LET a == Resolve(h, r1)
             b == Resolve(h, r2)
             h1 == WithAtom(WithAtom(h, a), b)
             bond == <<a, b, R>>
             e1 == Put(h1.ex, bond, J)
             e2 == IF h.dc = "true" /\ ~SelfMirror(bond)
                   THEN Put(e1, Mirror(bond), MT(J)) ELSE e1
         IN Ok([h1 EXCEPT !.ex = e2])

AddOnSite(h, r, J) ==
    IF ~Resolvable(h, r) THEN Err(h, "error")
    ELSE LET a == Resolve(h, r) IN Ok([WithAtom(h, a) EXCEPT !.on = Put(h.on, a, J)])

DropBond(h, bond) == [h EXCEPT !.ex = Drop(@, IF h.dc = "true" THEN {bond, Mirror(bond)} ELSE {bond})]

RemoveExchange(h, r1, r2, R, strict) ==
    IF ~Resolvable(h, r1) \/ ~Resolvable(h, r2) THEN Err(h, "error")
    ELSE LET bond == <<Resolve(h, r1), Resolve(h, r2), R>>
         IN IF bond \in Bonds(h) THEN Ok(DropBond(h, bond))
            ELSE IF strict THEN Err(h, "KeyError") ELSE Ok(h)

RemoveOnSite(h, r, strict) ==
    IF ~Resolvable(h, r) THEN Err(h, "error")
    ELSE LET a == Resolve(h, r)
         IN IF a \in Sites(h) THEN Ok([h EXCEPT !.on = Drop(@, {a})])
            ELSE IF strict THEN Err(h, "KeyError") ELSE Ok(h)

HasExchange(h, r1, r2, R) ==
    IF ~Resolvable(h, r1) \/ ~Resolvable(h, r2) THEN Err(h, "error")
    ELSE OkV(h, B2S(<<Resolve(h, r1), Resolve(h, r2), R>> \in Bonds(h)))
HasOnSite(h, r) ==
    IF ~Resolvable(h, r) THEN Err(h, "error") ELSE OkV(h, B2S(Resolve(h, r) \in Sites(h)))

GetExchange(h, r1, r2, R) ==
    IF ~Resolvable(h, r1) \/ ~Resolvable(h, r2) THEN Err(h, "error")
    ELSE LET b == <<Resolve(h, r1), Resolve(h, r2), R>>
         IN IF b \in Bonds(h) THEN OkV(h, h.ex[b]) ELSE Err(h, "KeyError")
GetOnSite(h, r) ==
    IF ~Resolvable(h, r) THEN Err(h, "error")
    ELSE LET a == Resolve(h, r) IN IF a \in Sites(h) THEN OkV(h, h.on[a]) ELSE Err(h, "KeyError")

AddAtom(h, a) == IF a \in AtomSet(h) THEN Err(h, "error")
                 ELSE Ok([h EXCEPT !.atoms = Append(@, a)])
RemoveAtom(h, r) ==
    IF ~Resolvable(h, r) \/ (r.k = "obj" /\ r.id \notin AtomSet(h)) THEN Err(h, "error")
    ELSE LET a == Resolve(h, r)
         IN Ok([h EXCEPT !.atoms = SelectSeq(@, LAMBDA x : x # a),
                         !.ex = Drop(@, {b \in DOMAIN @ : b[1] = a \/ b[2] = a}),
                         !.on = Drop(@, {a})])

-----------------------------------------------------------------------------
(* Notation                                                                  *)
\* sum of the two bonds of a pair, written for the bond c
PairSum(h, c) ==
    LET m == Mirror(c)
    IN IF SelfMirror(c) THEN h.ex[c]
       ELSE IF c \notin Bonds(h) THEN MT(h.ex[m])
       ELSE IF m \notin Bonds(h) THEN h.ex[c]
       ELSE MAdd(h.ex[c], MT(h.ex[m]))

SetDc(h, v) ==
    LET both == Bonds(h) \cup {Mirror(b) : b \in Bonds(h)}
    IN CASE h.dc = Undef /\ v = "true" ->
              \* stored bonds are taken as they are, missing mirrors are added
              [h EXCEPT !.dc = v, !.ex = [b \in both |-> IF b \in Bonds(h) THEN h.ex[b] ELSE MT(h.ex[Mirror(b)])]]
         [] h.dc = Undef /\ v = "false" ->
              \* one bond of every pair is kept; a canonical one as it is
              [h EXCEPT !.dc = v, !.ex = [c \in CanonSet(h) |-> IF c \in Bonds(h) THEN h.ex[c] ELSE MT(h.ex[Mirror(c)])]]
         [] h.dc = "true" /\ v = "true" -> h
         [] v = "false" ->
              [h EXCEPT !.dc = v, !.ex = [c \in CanonSet(h) |-> PairSum(h, c)]]
         [] OTHER ->
              [h EXCEPT !.dc = v, !.ex = [b \in both |-> IF SelfMirror(b) THEN h.ex[b] ELSE MScale(PairSum(h, b), "1/2")]]

SpinProd(h, b) == RMul(h.A[b[1]].spin, h.A[b[2]].spin)
Spin2(h, a) == RMul(h.A[a].spin, h.A[a].spin)
SetSn(h, v) ==
    IF h.sn = Undef \/ h.sn = v THEN [h EXCEPT !.sn = v]
    ELSE LET fx(b) == IF v = "true" THEN SpinProd(h, b) ELSE RDiv("1", SpinProd(h, b))
             fo(a) == IF v = "true" THEN Spin2(h, a) ELSE RDiv("1", Spin2(h, a))
         IN [h EXCEPT !.sn = v,
                      !.ex = [b \in DOMAIN @ |-> MScale(@[b], fx(b))],
                      !.on = [a \in DOMAIN @ |-> MScale(@[a], fo(a))]]

SetEf(h, f) ==
    IF h.ef = Undef \/ h.ef = f THEN [h EXCEPT !.ef = f]
    ELSE [h EXCEPT !.ef = f, !.ex = [b \in DOMAIN @ |-> MScale(@[b], RDiv(h.ef, f))]]
SetOf(h, f) ==
    IF h.of = Undef \/ h.of = f THEN [h EXCEPT !.of = f]
    ELSE [h EXCEPT !.of = f, !.on = [a \in DOMAIN @ |-> MScale(@[a], RDiv(h.of, f))]]

SetAll(h, t) == SetOf(SetEf(SetSn(SetDc(h, t[1]), t[2]), t[3]), t[4])

Predefined == [magnopy |-> <<"true", "false", "1/2", "1">>,
               tb2j    |-> <<"true", "true", "-1", "-1">>,
               spinw   |-> <<"true", "false", "1", "1">>,
               vampire |-> <<"true", "true", "-1/2", "-1">>]
\* x: lower case name
SetByName(h, x) == IF x \in DOMAIN Predefined THEN Ok(SetAll(h, Predefined[x])) ELSE Err(h, "error")
\* t: the components given by the user
SetByTuple(h, t) ==
    CASE Len(t) = 3 -> Ok(SetAll(h, <<t[1], t[2], RNum(t[3]), RNum(t[3])>>))
      [] Len(t) = 4 -> Ok(SetAll(h, <<t[1], t[2], RNum(t[3]), RNum(t[4])>>))
      [] OTHER -> Err(h, "error")

\* reading a component
ReadComponent(h, c) ==
    LET v == CASE c = "dc" -> h.dc [] c = "sn" -> h.sn [] c = "ef" -> h.ef [] OTHER -> h.of
    IN IF v = Undef THEN Err(h, "NotationError") ELSE OkV(h, v)
FullySet(h) == h.dc # Undef /\ h.sn # Undef /\ h.ef # Undef /\ h.of # Undef
ReadNotation(h) == IF FullySet(h) THEN OkV(h, <<h.dc, h.sn, h.ef, h.of>>) ELSE Err(h, "NotationError")

-----------------------------------------------------------------------------
(* Filter.  lo, hi: distances or "undef"; p: a custom predicate [k, v] on the
   parameter, k = "any" if there is none                                                   *)
IntR(R) == <<ToString(R[1]), ToString(R[2]), ToString(R[3])>>
BondVector(h, b) ==
    VMat(VAdd(VSub(h.A[b[2]].pos, h.A[b[1]].pos), IntR(b[3])), h.cell)
Dist2(h, b) == VNorm2(BondVector(h, b))

Pred(p, J) ==
    CASE p.k = "any" -> TRUE
      [] p.k = "iso_ge"  -> RLe(p.v, Iso(J))
      [] p.k = "xx_gt"   -> RLt(p.v, J[1][1])
      [] p.k = "xy_le"   -> RLe(J[1][2], p.v)      \* not symmetric under transposition
      [] p.k = "dmi_lt"  -> RLt(VNorm2(Dmi(J)), p.v)
      [] OTHER           -> FALSE

KeepBond(h, b, lo, hi, p) ==
    LET d2 == Dist2(h, b)
    IN /\ lo # Undef => (RLe(lo, "0") \/ RLe(RMul(lo, lo), d2))
       /\ hi # Undef => (RLe("0", hi) /\ RLe(d2, RMul(hi, hi)))
       /\ Pred(p, h.ex[b])
KeepSite(h, a, lo, hi, p) ==
    /\ lo # Undef => RLe(lo, "0")
    /\ Pred(p, h.on[a])

\* With double counting a bond and its mirror stay or go together
Filter(h, lo, hi, p) ==
    LET gone == {b \in Bonds(h) : ~KeepBond(h, b, lo, hi, p)}
        mirr == IF h.dc = "true" THEN {Mirror(b) : b \in gone} ELSE {}
    IN [h EXCEPT !.ex = Drop(@, gone \cup mirr),
                 !.on = Drop(@, {a \in Sites(h) : ~KeepSite(h, a, lo, hi, p)})]

-----------------------------------------------------------------------------
(* Ground state information                                                  *)
\* numbers of the notation that are needed in order to store
Storable(h) == /\ (Bonds(h) # {} \/ Sites(h) # {}) => h.sn # Undef
               /\ Bonds(h) # {} => h.dc # Undef /\ h.ef # Undef
               /\ Sites(h) # {} => h.of # Undef
\* Calls that can not be done (unusable arguments, a filter of the user that raises, files
\* that can not be written): an error, and nothing is changed.
Failure(h, e) ==
    CASE e.what \in {"filter raises", "filtered raises"} /\ Bonds(h) = {} /\ Sites(h) = {} -> Ok(h)
      [] e.what = "filter length" /\ Bonds(h) = {} -> Ok(h)
      \* written, if the notation is complete
      [] e.what = "store" -> IF Storable(h) THEN Ok(h) ELSE Err(h, "NotationError")
      [] e.what = "export" -> IF FullySet(h) THEN Ok(h) ELSE IF Storable(h) THEN Err(h, "any") ELSE Err(h, "NotationError")
      [] OTHER -> Err(h, "error")
Failures == {"filter raises", "filtered raises", "filter length", "store", "store again", "no folder", "load",
             "cell", "spiral", "cone", "factor", "notation", "bond", "site", "atom", "export"}

SetSpiral(h, v) == IF Len(v) = 3 THEN Ok([h EXCEPT !.q = VNum(v)]) ELSE Err(h, "error")
SetCone(h, v) == IF Len(v) # 3 THEN Err(h, "error")
                 ELSE IF VNum(v) = VZero THEN Err(h, "error")
                 ELSE Ok([h EXCEPT !.n = VUnit(v)])

-----------------------------------------------------------------------------
(* Derived quantities                                                        *)
Magnetic(h) == {b[1] : b \in Bonds(h)} \cup {b[2] : b \in Bonds(h)} \cup Sites(h)

\* On-site parameters written as exchange with the exchange factor
OnAsExchange(h, a) == MScale(h.on[a], RDiv(h.of, h.ef))

(* The physics: the energy as a quadratic form of the unit spin vectors e_i.
   Two Hamiltonians give the same energy for every spin configuration iff the
   coefficient matrices of all pairs agree (for a pair of a spin with itself
   only the symmetric part matters and all such terms add up).               *)
PhysScale(h, b) == IF h.sn = "true" THEN "1" ELSE SpinProd(h, b)
PhysKeys(h) == {c \in CanonSet(h) : ~SelfMirror(c)}
               \cup {<<a, a, R0>> : a \in Sites(h)} \cup {b \in Bonds(h) : SelfMirror(b)}
PhysCoef(h, c) ==
    IF ~SelfMirror(c) THEN MScale(PairSum(h, c), RMul(h.ef, PhysScale(h, c)))
    ELSE MScale(MAdd(IF c \in Bonds(h) THEN MScale(MSym(h.ex[c]), h.ef) ELSE MZero,
                     IF c[1] \in Sites(h) THEN MScale(MSym(h.on[c[1]]), h.of) ELSE MZero),
                PhysScale(h, c))
Phys(h) == [c \in PhysKeys(h) |-> PhysCoef(h, c)]

PhysReady(h) == /\ h.dc # Undef /\ h.sn # Undef
                /\ (Bonds(h) # {} => h.ef # Undef) /\ (Sites(h) # {} => h.of # Undef)

-----------------------------------------------------------------------------
(* Invariants of a Hamiltonian                                               *)
\* every bond has its mirror, and it is the transposed matrix
MirrorsPresent(h) == h.dc = "true" => \A b \in Bonds(h) : Mirror(b) \in Bonds(h)
MirrorsConsistent(h) ==
    \A b \in Bonds(h) : (~SelfMirror(b) /\ Mirror(b) \in Bonds(h)) => h.ex[Mirror(b)] = MT(h.ex[b])
AtomsKnown(h) == /\ Magnetic(h) \subseteq AtomSet(h)
                 /\ Cardinality(AtomSet(h)) = Len(h.atoms)
-----------------------------------------------------------------------------
(* Another cell of the same lattice.  S: integer matrix with determinant 1 or
   -1; a vector with relative coordinates x in the old cell has coordinates S x
   in the new one, reciprocal vectors transform with the inverse of S.        *)
Unimodular(S) == MDet(S) \in {"1", "-1"} /\ \A i \in 1..3 : \A j \in 1..3 : RIsInt(S[i][j])
NewCell(cell, S) == MMul(MT(MInv(S)), cell)
NewR(S, R) == LET v == MVec(S, IntR(R)) IN <<RToInt(v[1]), RToInt(v[2]), RToInt(v[3])>>
Recell(h, S) ==
    LET to == TLCEval([b \in Bonds(h) |-> <<b[1], b[2], NewR(S, b[3])>>])
        img == {to[b] : b \in Bonds(h)}
        inv == MInv(S)
    IN [h EXCEPT !.cell = NewCell(@, S),
                 !.A = [a \in DOMAIN h.A |-> IF a \in AtomSet(h) THEN [h.A[a] EXCEPT !.pos = MVec(S, @)] ELSE h.A[a]],
                 !.ex = [c \in img |-> h.ex[CHOOSE b \in Bonds(h) : to[b] = c]],
                 !.q = IF @ = <<>> THEN @ ELSE MVec(MT(inv), @)]
\* all atoms of the crystal move by the same vector (relative coordinates)
ShiftAll(h, d) == [h EXCEPT !.A = [a \in DOMAIN h.A |-> IF a \in AtomSet(h) THEN [h.A[a] EXCEPT !.pos = VAdd(@, d)] ELSE h.A[a]]]
LeastOf(T) == CHOOSE x \in T : \A y \in T : RLe(x, y)
MostOf(T) == CHOOSE x \in T : \A y \in T : RLe(y, x)
Coords(h, i) == {h.A[a].pos[i] : a \in AtomSet(h)}
\* the middle of the atoms goes to g; negative coordinates are removed
ShiftTo(h, g) == ShiftAll(h, [i \in 1..3 |-> RSub(g[i], RMul("1/2", RAdd(LeastOf(Coords(h, i)), MostOf(Coords(h, i)))))])
CureNegative(h) == ShiftAll(h, [i \in 1..3 |-> LET m == LeastOf(Coords(h, i)) IN IF RLt(m, "0") THEN RNeg(m) ELSE "0"])
=============================================================================
