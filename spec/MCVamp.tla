------------------------------- MODULE MCVamp -------------------------------
(* Small Hamiltonians in four notations and their export to Vampire: the listed
   interactions give the energy of the Hamiltonian, whatever its notation
   (SameEnergy), the file of a correct writer is accepted and corrupted files
   are not.                                                                   *)
EXTENDS Vampire, EnergyClassic

CONSTANTS Size, Export
VARIABLES h0, e
vars == <<h0, e>>

A1 == "A__3"
B2 == "B__1"
X == <<1, 0, 0>>
Y == <<0, 1, -1>>
AT == [x \in {A1, B2} |->
         IF x = A1 THEN [name |-> "A", idx |-> 3, rank |-> 2, spin |-> "2", spinv |-> <<"0", "0", "2">>, pos |-> <<"0", "0", "0">>, g |-> "2", q |-> Undef]
         ELSE [name |-> "B", idx |-> 1, rank |-> 1, spin |-> "5/2", spinv |-> <<"0", "-3/2", "2">>, pos |-> <<"1/4", "0", "1/2">>, g |-> "9/4", q |-> Undef]]
Cell == << <<"4", "0", "0">>, <<"4", "3", "0">>, <<"0", "0", "5">> >>
M1 == << <<"1", "2", "0">>, <<"0", "1", "-1">>, <<"3", "0", "1">> >>
M2 == << <<"-2", "1", "0">>, <<"-1", "0", "1/2">>, <<"0", "0", "2">> >>
MS == << <<"1", "1/2", "0">>, <<"1/2", "-1", "1">>, <<"0", "1", "0">> >>
Bnd == {<<A1, B2, R0>>, <<A1, A1, X>>, <<B2, A1, Y>>}
Exs == UNION {[T -> {M1, M2}] : T \in {S \in SUBSET Bnd : Cardinality(S) <= Size}}
Ons == {<<>>, [a \in {A1} |-> MS], [a \in {A1, B2} |-> MS]}
Nots == {<<"true", "false", "1/2", "1">>, <<"false", "true", "-1", "-2">>, <<"true", "true", "-1/2", "-1">>, <<"false", "false", "1", "1">>}
Dir == {<<"0", "0", "1">>, <<"3/5", "0", "-4/5">>, <<"2/3", "1/3", "-2/3">>}

Case(t, ex, on) == [t |-> t, ex |-> ex, on |-> on]
H(c) == SetAll([EmptyHam(AT, Cell, <<A1, B2>>) EXCEPT !.ex = c.ex, !.on = c.on], c.t)
Init == /\ h0 \in {Case(t, ex, on) : t \in Nots, ex \in Exs, on \in Ons} /\ Magnetic(H(h0)) # {}
        /\ e \in Dir
Next == UNCHANGED vars

h == TLCEval(H(h0))
v == TLCEval(InVampire(h))
\* in the order of the indices
Ids == SelectSeq(<<B2, A1>>, LAMBDA a : a \in Magnetic(h))
Opt == [aniso |-> TRUE, dmi |-> TRUE, mask |-> "none", dec |-> 13, mats |-> <<>>]

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o " " \o Cat(Tail(s))
Pos(a) == (CHOOSE k \in DOMAIN Ids : Ids[k] = a) - 1
\* the interactions: <<key, matrix>>
List == LET bs == SetToSeq(LikeKeys(v))
            each(b) == LET l == LikeVals(v, b) IN [k \in DOMAIN l |-> <<b, l[k]>>]
            RECURSIVE all(_)
            all(k) == IF k = 0 THEN <<>> ELSE all(k - 1) \o each(bs[k])
        IN all(Len(bs))
IRow(k, b, J) == Cat(<<ToString(k - 1), ToString(Pos(b[1])), ToString(Pos(b[2])), ToString(b[3][1]), ToString(b[3][2]), ToString(b[3][3])>>
                     \o J[1] \o J[2] \o J[3])
Ucf(list) ==
    <<"# Unit cell size:", "4 5 5", "# vectors", Cat(Cell[1]), Cat(Cell[2]), Cat(Cell[3]), "# Atoms", Cat(<<ToString(Len(Ids)), ToString(Len(Ids))>>)>>
    \o [k \in DOMAIN Ids |-> Cat(<<ToString(k - 1)>> \o AT[Ids[k]].pos \o <<ToString(k - 1)>>)]
    \o <<"# Interactions", Cat(<<ToString(Len(list)), "tensorial">>)>>
    \o [k \in DOMAIN list |-> IRow(k, list[k][1], MScale(list[k][2], JouleOfmeV))]

\* energy of the file in meV: -1/2 of the sum over its lines
U(a) == IF a = A1 THEN e ELSE <<"0", "-3/5", "4/5">>
FileEnergy ==
    LET x == [k \in DOMAIN List |-> MForm(U(List[k][1][1]), List[k][2], U(List[k][1][2]))]
    IN RMul("-1/2", RSumF(x, DOMAIN x))
SameEnergy == FileEnergy = Ferro(EnergyOf(h, Ids), [a \in Magnetic(h) |-> U(a)])

Accepts == UcfVerdict(v, Ids, Opt, Ucf(List)) = "ok"
\* a missing interaction, one that is repeated, a doubled one, a transposed one
\* (unless symmetric), another notation
Bad(l) == UcfVerdict(v, Ids, Opt, Ucf(l)) # "ok"
Rejects == /\ Bad(Tail(List))
           /\ Bad(Append(List, List[1]))
           /\ Bad([List EXCEPT ![1][2] = MScale(@, "2")])
           /\ (List[1][2] # MT(List[1][2])) => Bad([List EXCEPT ![1][2] = MT(@)])

JA == SetToSeq({[id |-> x, name |-> AT[x].name, idx |-> AT[x].idx, rank |-> AT[x].rank, g |-> AT[x].g,
                 spin |-> AT[x].spin, spinv |-> AT[x].spinv, pos |-> AT[x].pos] : x \in DOMAIN AT})
ASSUME Export => PrintT("HD|" \o ToJson([A |-> JA, cell |-> Cell, atoms |-> <<A1, B2>>]))
Obj(a) == [k |-> "full", id |-> a]
Script == LET bs == SetToSeq(DOMAIN h0.ex)
              os == SetToSeq(DOMAIN h0.on)
          IN [k \in DOMAIN bs |-> [op |-> "addx", o |-> 1, a |-> Obj(bs[k][1]), b |-> Obj(bs[k][2]), R |-> bs[k][3], J |-> [matrix |-> h0.ex[bs[k]]], via |-> "method"]]
             \o [k \in DOMAIN os |-> [op |-> "addo", o |-> 1, a |-> Obj(os[k]), J |-> [matrix |-> h0.on[os[k]]], via |-> "method"]]
             \o <<[op |-> "settuple", o |-> 1, v |-> h0.t]>>
Out == (Export /\ e = <<"0", "0", "1">>) => PrintT("TR|" \o ToJson(Script))
=============================================================================
