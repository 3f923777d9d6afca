------------------------------- MODULE MCCell -------------------------------
(* The choice of the unit cell and of the origin has no physical meaning.

   h0 is edited in one cell; h goes through the same edits, but in between its
   cell is replaced by another one of the same lattice (unimodular matrices,
   any number of times) and its atoms are moved together.  S is the product of
   the matrices.  The invariants compare h with h0: every edit commutes with
   the change of the cell, and lengths, couplings, energies and the spin-wave
   matrix at the same wave vector are the same.                              *)
EXTENDS HamStep

CONSTANTS Depth, Export
VARIABLES h0, h, S, hist
vars == <<h0, h, S, hist>>

A1 == "A__1"
B2 == "B__2"
AT == [x \in {A1, B2} |->
         IF x = A1 THEN [name |-> "A", idx |-> 1, rank |-> 1, spin |-> "2", spinv |-> <<"0", "0", "2">>, pos |-> <<"0", "0", "0">>, g |-> "2", q |-> Undef]
         ELSE [name |-> "B", idx |-> 2, rank |-> 2, spin |-> "5/2", spinv |-> <<"0", "-3/2", "2">>, pos |-> <<"1/4", "0", "-1/2">>, g |-> "2", q |-> Undef]]
Cell0 == << <<"3", "0", "0">>, <<"0", "4", "0">>, <<"1", "0", "5">> >>
M1 == << <<"1", "2", "0">>, <<"0", "1", "-1">>, <<"3", "0", "1">> >>
M2 == << <<"-2", "1", "0">>, <<"1", "1/2", "1/2">>, <<"0", "1/2", "2">> >>
Ful(a) == [k |-> "full", id |-> a]

\* shears and turns of the lattice vectors
Gens == { << <<"1", "0", "0">>, <<"1", "1", "0">>, <<"0", "0", "1">> >>,
          << <<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "-1", "1">> >>,
          << <<"0", "1", "0">>, <<"0", "0", "1">>, <<"1", "0", "0">> >>,
          << <<"0", "0", "-1">>, <<"0", "1", "0">>, <<"1", "0", "0">> >> }
Bnds == {<<A1, B2, R0>>, <<B2, A1, <<1, 0, 0>> >>, <<A1, A1, <<0, 1, -1>> >>, <<A1, A1, <<0, -1, 1>> >>}
Val(b) == IF b[1] = b[2] THEN M2 ELSE M1

\* edits; b is a bond in the first cell
Edits == {[op |-> "addx", b |-> b] : b \in Bnds} \cup {[op |-> "delx", b |-> b] : b \in Bnds}
         \cup {[op |-> "setdc", v |-> v] : v \in {"true", "false"}}
         \cup {[op |-> "filter", lo |-> "undef", hi |-> "4"], [op |-> "filter", lo |-> "4", hi |-> "undef"]}
         \cup {[op |-> "dela", a |-> Ful(B2)], [op |-> "setname", v |-> "vampire"]}
Do(g, T, e) == CASE e.op = "addx" -> AddExchange(g, Ful(e.b[1]), Ful(e.b[2]), NewR(T, e.b[3]), Val(e.b)).st
                 [] e.op = "delx" -> RemoveExchange(g, Ful(e.b[1]), Ful(e.b[2]), NewR(T, e.b[3]), FALSE).st
                 [] e.op = "setdc" -> SetDc(g, e.v)
                 [] e.op = "filter" -> Filter(g, e.lo, e.hi, [k |-> "any"])
                 [] e.op = "dela" -> RemoveAtom(g, e.a).st
                 [] OTHER -> SetByName(g, e.v).st

Start == LET g0 == [EmptyHam(AT, Cell0, <<A1, B2>>) EXCEPT !.q = <<"1/2", "0", "-1/4">>]
             g1 == SetByName(g0, "tb2j").st
         IN AddOnSite(AddExchange(g1, Ful(A1), Ful(B2), R0, M1).st, Ful(A1), M2).st

Init == h0 = Start /\ h = Start /\ S = MOne /\ hist = <<>>
Recells == \E T \in Gens : h' = Recell(h, T) /\ S' = MMul(T, S) /\ h0' = h0 /\ hist' = Append(hist, "cell")
Moves == \E k \in {"shift", "cure"} :
            h' = (IF k = "shift" THEN ShiftTo(h, <<"1/2", "1/2", "1/4">>) ELSE CureNegative(h)) /\ S' = S /\ h0' = h0
            /\ hist' = Append(hist, k)
Edit == \E e \in Edits :
            /\ TLCEval(IF B2 \in AtomSet(h) THEN TRUE ELSE IF e.op \in {"addx", "delx"} THEN e.b[1] = A1 /\ e.b[2] = A1 ELSE e.op # "dela")
            /\ h' = Do(h, S, e) /\ h0' = Do(h0, MOne, e) /\ S' = S /\ hist' = Append(hist, "edit")
Next == Len(hist) < Depth /\ (Recells \/ Moves \/ Edit)
-----------------------------------------------------------------------------
Both(g) == SetDc(g, "true")
\* C21: the bonds are those of the other cell
SameBonds == LET a == Both(h) b == Both(Recell(h0, S)) IN a.ex = b.ex /\ a.on = b.on /\ a.atoms = b.atoms /\ a.ef = b.ef
\* C21: same lattice: same volume, and every old lattice vector is an integer combination of new ones
SameLattice == /\ RAbs(MDet(h.cell)) = RAbs(MDet(h0.cell)) /\ Unimodular(S)
               /\ MMul(MT(S), h.cell) = h0.cell
\* C21: vectors between interacting atoms, for all bonds that exist
SameVectors == \A b \in Bonds(Both(h0)) : BondVector(h, <<b[1], b[2], NewR(S, b[3])>>) = BondVector(h0, b)
\* C21: absolute spiral vector (multiples of reciprocal vectors)
Rcp(g) == MT(MInv(g.cell))
SameSpiral == VMat(h.q, Rcp(h)) = VMat(h0.q, Rcp(h0))
Ids(g) == SelectSeq(g.atoms, LAMBDA a : a \in Magnetic(g))
Fr == << << <<"1", "0">>, <<"0", "1">>, <<"0", "0">> >>, << <<"1", "0">>, <<"0", "4/5">>, <<"0", "3/5">> >> >>
Nv == << <<"0", "0", "1">>, <<"0", "-3/5", "4/5">> >>
Ks == {<<"1/3", "-1/2", "1/5">>}
SameWaves == \A k \in Ks :
    LET ids == Ids(h0)
        pick(F) == [n \in DOMAIN ids |-> IF ids[n] = A1 THEN F[1] ELSE F[2]]
        n == Len(ids)
    IN ids # <<>> => CMatClose(SpinWave(InSpinW(h), ids, pick(Fr), pick(Nv), k), SpinWave(InSpinW(h0), ids, pick(Fr), pick(Nv), k), "1e-30")
\* vacuity: states where the cell changed and bonds differ are reached
NeverMoved == ~(hist # <<>> /\ h.ex # h0.ex)

ASSUME Export => PrintT("HD|" \o ToJson([A |-> SetToSeq({AT[x] @@ [id |-> x] : x \in DOMAIN AT}), atoms |-> <<A1, B2>>]))
\* cells in which the real code is asked for the standard one
Out == (Export /\ \A k \in DOMAIN hist : hist[k] = "cell") => PrintT("TR|" \o ToJson([cell |-> h.cell,
            ex |-> SetToSeq({[b |-> b, J |-> h.ex[b]] : b \in {x \in Bonds(h) : IsCanon(h, x)}}), q |-> h.q,
            adata |-> [a \in AtomSet(h) |-> h.A[a].pos]]))
=============================================================================
