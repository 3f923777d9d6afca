------------------------------- MODULE MCH5 -------------------------------
(* hdf5 files of one model, explored exhaustively: units of everything, order
   of the groups, parts that are present, and one node taken away, one unit or
   one reference spoiled.  The real loader is given every explored file.     *)
EXTENDS Hdf5File, Json

CONSTANTS Export, Wide

Cell0 == << <<"2", "0", "0">>, <<"1", "2.5", "0">>, <<"0", "0.5", "4">> >>
M1 == << <<"1", "0.5", "-2">>, <<"0.25", "-1.5", "3">>, <<"0", "4", "0.75">> >>
M2 == << <<"0", "2", "0.5">>, <<"-2", "0.5", "0.125">>, <<"1", "-1", "3">> >>
O1 == << <<"1", "0.25", "-0.125">>, <<"0.25", "-2", "3">>, <<"-0.125", "3", "0.5">> >>
At(k, n, p, s, g) == [key |-> k, name |-> n, position |-> p, spin |-> s, g |-> g]
Base == [cell |-> [units |-> "Angstrom", v |-> Cell0],
         atoms |-> <<At(1, "Fe", <<"0", "0", "0">>, <<"0", "0", "1.5">>, "2"), At(2, "Cr", <<"0.5", "0.25", "0.125">>, <<"1", "-2", "2">>, "1.9")>>,
         notation |-> [dc |-> "true", sn |-> "false", ef |-> "-0.5", of |-> "2.5"],
         exchange |-> [units |-> "milli-electron-Volt",
                       items |-> <<[key |-> 1, a |-> "Fe", b |-> "Cr", ijk |-> <<0, 0, 0>>, matrix |-> M1],
                                   [key |-> 2, a |-> "Cr", b |-> "Cr", ijk |-> <<1, 0, -1>>, matrix |-> M2]>>],
         onsite |-> [units |-> "milli-electron-Volt", items |-> <<[key |-> 1, a |-> "Cr", matrix |-> O1]>>],
         spiral |-> [units |-> "Relative", v |-> <<"0.25", "0", "-1.5">>],
         cone |-> [units |-> "Absolute", v |-> <<"1", "2", "-2">>],
         drop |-> <<>>]
Without(T, S) == [f \in DOMAIN T \ S |-> T[f]]

CUs == {"Angstrom", "BOHR", "angstrom"}
EUs == {"milli-electron-Volt", "Electron-volt", "JOULE", "kelvin", "Rydberg"}
RUs == {"Relative", "ABSOLUTE"}
InUnits(T, cu, eu, ou, su, nu) == [T EXCEPT !.cell.units = cu, !.exchange.units = eu, !.onsite.units = ou, !.spiral.units = su, !.cone.units = nu]
\* groups are created in the other order; ten atoms more, so that numbers of two digits appear
Mixed(T) == [T EXCEPT !.atoms = <<@[2], [@[1] EXCEPT !.g = "1.5"] @@ [charge |-> "-1.5"]>>, !.exchange.items = <<@[2], @[1]>>]
Twelve(T) == [T EXCEPT !.atoms = [k \in 1..12 |-> LET j == 13 - k IN At(j, IF j = 1 THEN "Fe" ELSE IF j = 2 THEN "Cr" ELSE "X" \o ToString(j),
                                                               <<"0." \o ToString(j), "0", "0.5">>, <<"0", ToString(j), "0.5">>, "2")],
                       !.exchange.items = <<[@[1] EXCEPT !.key = 10], [@[2] EXCEPT !.key = 9], [@[1] EXCEPT !.key = 2, !.a = "X11", !.b = "X3"]>>]
\* the same bond twice: the one with the greater number counts
Twice(T) == [T EXCEPT !.exchange.items = @ \o <<[@[2] EXCEPT !.key = 10, !.a = "Fe", !.b = "Cr", !.ijk = <<0, 0, 0>>]>>]
\* two atoms with one name, addressed by full names
Same(T) == [T EXCEPT !.atoms = <<@[1], [@[2] EXCEPT !.name = "Fe"]>>,
                     !.exchange.items = <<[@[1] EXCEPT !.a = "Fe__1", !.b = "Fe__2"]>>, !.onsite.items = <<[@[1] EXCEPT !.a = "Fe__2"]>>]
Notations(T) == {[T EXCEPT !.notation = [dc |-> d, sn |-> s, ef |-> "2", of |-> "-1"]] : d \in {"true", "false"}, s \in {"true", "false"}}
Shapes == {Base, Mixed(Base), Twelve(Base), Twice(Base), Same(Base)} \cup Notations(Base)
Parts == {{}, {"exchange"}, {"onsite"}, {"exchange", "onsite"}, {"exchange", "onsite", "notation"}, {"spiral"}, {"cone"}, {"spiral", "cone"},
          {"exchange", "onsite", "notation", "spiral", "cone"}}

\* a choice of units c
Units5 == {<<c, e, o, s, n>> \in CUs \X EUs \X EUs \X RUs \X RUs : Wide \/ (e = o) \/ (c = "Angstrom" /\ s = "Relative")}
Write5(T, u) == InUnits(T, u[1], u[2], u[3], u[4], u[5])

VARIABLES tree, kind, from
vars == <<tree, kind, from>>
Init == \/ kind = "units" /\ from \in Units5 /\ tree = Write5(Base, from)
        \/ kind = "shape" /\ from = <<>> /\ tree \in Shapes
        \/ kind = "part" /\ from \in Parts /\ tree = Without(Base, from)
Spoiled(T) ==
    {[T EXCEPT !.drop = <<p>>] : p \in Needed(T)}
    \cup (IF InH(T, "exchange") THEN {[T EXCEPT !.exchange.units = x] : x \in {"eV", "meV", "electronvolt", "Hartree", "", "joules"}}
                                     \cup {[T EXCEPT !.exchange.items[1].a = x] : x \in {"Mn", "Fe__2", "fe", ""}}
                                     \cup {[T EXCEPT !.exchange.items[2].b = "Mn"]} ELSE {})
    \cup (IF InH(T, "onsite") THEN {[T EXCEPT !.onsite.units = x] : x \in {"eV", "Kelvins", "k", "Rydberg energy"}} \cup {[T EXCEPT !.onsite.items[1].a = "Mn"]} ELSE {})
    \cup (IF InH(T, "spiral") THEN {[T EXCEPT !.spiral.units = x] : x \in {"rel", "abs", "Absolutely", "reciprocal"}} ELSE {})
    \cup (IF InH(T, "cone") THEN {[T EXCEPT !.cone.units = x] : x \in {"rel", "r", "angles"}} ELSE {})
    \cup {[T EXCEPT !.cell.units = x] : x \in {"nm", "A", "", "meter"}}
Next == \/ kind = "part" /\ kind' = "spoiled" /\ tree' \in Spoiled(tree) /\ UNCHANGED from
        \/ kind = "spoiled" /\ FALSE /\ UNCHANGED vars

Accepted == kind # "spoiled" => ProblemH(tree) = "none"
Rejected == kind = "spoiled" => ProblemH(tree) # "none"
\* the meaning, computed from the base model: a unit multiplies the values
VNear(u, v) == \A j \in 1..3 : RLe(RAbs(RSub(u[j], v[j])), RMul("1e-40", RAdd("1", RAbs(u[j]))))
MNear(A, B) == \A j \in 1..3 : VNear(A[j], B[j])
Converted ==
    kind = "units" =>
    LET h == ReadH5(tree)
        b == ReadH5(Base)
        L5 == IF from[1] = "BOHR" THEN "0.529177210903" ELSE "1"
        E5(u) == CASE u = "milli-electron-Volt" -> "1" [] u = "Electron-volt" -> "1000" [] u = "JOULE" -> RDiv("1e22", "1.602176634")
                   [] u = "kelvin" -> RDiv("0.1380649", "1.602176634")
                   [] OTHER -> RDiv(RMul(RMul("6.62607015", "2.99792458"), "1.0973731568160e3"), "1.602176634")
        cell == MScale(MNum(Cell0), L5)
        B == MScale(MT(MInv(cell)), RMul("2", RPi))
    IN /\ MNear(h.cell, cell)
       /\ DOMAIN h.ex = DOMAIN b.ex /\ \A x \in DOMAIN h.ex : MNear(h.ex[x], MScale(b.ex[x], E5(from[2])))
       /\ DOMAIN h.on = DOMAIN b.on /\ \A x \in DOMAIN h.on : MNear(h.on[x], MScale(b.on[x], E5(from[3])))
       /\ IF from[4] = "Relative" THEN h.q = b.q ELSE VNear(VMat(h.q, B), b.q)
       /\ VNear(VCross(h.n, IF from[5] = "Relative" THEN VMat(<<"1", "2", "-2">>, cell) ELSE <<"1", "2", "-2">>), VZero)
       /\ RLe(RAbs(RSub(VNorm2(h.n), "1")), "1e-40")
       /\ h.atoms = b.atoms /\ h.A = b.A /\ h.dc = b.dc /\ h.sn = b.sn /\ h.ef = b.ef /\ h.of = b.of
Ordered == kind # "spoiled" =>
    LET h == ReadH5(tree)
    IN /\ \A k \in DOMAIN h.atoms : h.A[h.atoms[k]].idx = k /\ \E i \in DOMAIN tree.atoms : tree.atoms[i].key = k /\ tree.atoms[i].name = h.A[h.atoms[k]].name
       /\ h.ex # <<>> /\ h.dc = "true" => \A x \in DOMAIN h.ex : Mirror(x) \in DOMAIN h.ex /\ h.ex[Mirror(x)] = MT(h.ex[x])
Absent == kind = "part" => LET h == ReadH5(tree)
                           IN /\ ("exchange" \in from) = (h.ex = <<>>) /\ ("onsite" \in from) = (h.on = <<>>)
                              /\ ("spiral" \in from) = (h.q = <<>>) /\ ("cone" \in from) = (h.n = <<>>)
Out == Export => PrintT("FL|" \o ToJson(tree))
=============================================================================
