------------------------------- MODULE MCTb -------------------------------
(* Ways to write one result of TB2J.  Three pairs of atoms interact; a file may
   list a pair in one or the other direction or in both, in any order, parts
   of parameters which are zero may be missing, parts may come in any order,
   with remarks, with any brackets and commas.  Every file means the same
   Hamiltonian (Meaning) and it survives the conversion (Converted).         *)
EXTENDS Store

CONSTANTS Wide, Export
VARIABLES way
vars == <<way>>

Pairs == << [a |-> "Cr1", b |-> "Cr2", R |-> <<0, 0, 0>>, iso |-> "-1.5", dmi |-> <<"0", "0", "0">>, an |-> <<"0", "0", "0", "0", "0">>],
            [a |-> "Cr2", b |-> "Cr1", R |-> <<1, -12, 0>>, iso |-> "0.25", dmi |-> <<"1", "-0.5", "2.25">>, an |-> <<"0", "0", "0", "0", "0">>],
            [a |-> "Cr1", b |-> "Cr1", R |-> <<0, 0, 1>>, iso |-> "0", dmi |-> <<"0", "0.125", "0">>, an |-> <<"1", "0.5", "-2", "0", "3">>] >>
NegS(x) == IF x = "0" THEN x ELSE IF SChar(x, 1) = "-" THEN SErase(x, "-") ELSE "-" \o x
Turn(p) == [p EXCEPT !.a = p.b, !.b = p.a, !.R = RNegV(p.R), !.dmi = <<NegS(p.dmi[1]), NegS(p.dmi[2]), NegS(p.dmi[3])>>]
Rest(an) == RNeg(RAdd(an[1], an[2]))   \* an integer or a half, written below
Dec(x) == CASE x = "-3/2" -> "-1.5" [] OTHER -> x

\* a way: direction of pairs ("one", "other", "both"), order of blocks, written
\* parts ("all" or "needed"), order of parts, look of brackets, remarks
Sides == {"one", "other", "both"}
Orders == {"as is", "back"}
Zero3(v) == v = <<"0", "0", "0">>
Look == {"round", "bare", "list"}

B(look, l, w, r) == CASE look = "round" -> "(" \o w[1] \o ", " \o w[2] \o ", " \o w[3] \o ")"
                      [] look = "bare" -> w[1] \o " " \o w[2] \o "  " \o w[3]
                      [] OTHER -> l \o " " \o w[1] \o "  " \o w[2] \o "  " \o w[3] \o " " \o r
T(k) == ToString(k)
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))

PartLines(p, w) ==
    LET an == p.an
        i == <<"J_iso: " \o p.iso \o " ">>
        d == IF Zero3(p.dmi) /\ w.parts = "needed" THEN <<>> ELSE <<w.tag \o "DMI: " \o B(w.look, "(", p.dmi, ")")>>
        s == IF an = <<"0", "0", "0", "0", "0">> /\ w.parts = "needed" THEN <<>>
             ELSE <<w.tag \o "J_ani:", B(w.look, "[[", <<an[1], an[3], an[4]>>, "]"), B(w.look, " [", <<an[3], an[2], an[5]>>, "]"),
                    B(w.look, " [", <<an[4], an[5], Dec(Rest(an))>>, "]]")>>
        r == IF w.remarks THEN <<"[Testing!] Jprime: 0.5,  B: 1.25", "">> ELSE <<>>
    IN Join(IF w.inner = "back" THEN <<r, s, d, i>> ELSE <<i, r, d, s>>)
Block(p, w) ==
    <<MinorSep, "   " \o p.a \o "   " \o p.b \o "   ( " \o T(p.R[1]) \o ", " \o T(p.R[2]) \o ",   " \o T(p.R[3]) \o ") " \o p.iso \o "  ( 1.0, 2.0,  3.5)  4.153">>
    \o PartLines(p, w)

Listed(w) == Join([k \in DOMAIN Pairs |-> CASE w.dir[k] = "one" -> <<Pairs[k]>> [] w.dir[k] = "other" -> <<Turn(Pairs[k])>> [] OTHER -> <<Pairs[k], Turn(Pairs[k])>>])
Major == TLCEval(Dashes(20))
Lines(w) ==
    LET l == IF w.order = "back" THEN Rev(Listed(w)) ELSE Listed(w)
        info == IF w.remarks THEN <<"Information: ", "Exchange parameters generated by TB2J 0.2.8.", "">> ELSE <<>>
        q(x) == IF w.cols >= 5 THEN "  " \o x ELSE ""
        m(x) == IF w.cols = 8 THEN "  " \o x ELSE ""
    IN info \o <<"Cell (Angstrom):" \o (IF w.remarks THEN "  " ELSE ""), " 2.0  0.0 0", "0.000 4.0000  0. ", "0  1.0  5.0">>
       \o <<"====", "Atoms:", "(Note: charge and magmoms only count the wannier functions.)", " Atom x y z w_charge M(x) M(y) M(z)",
            "Cr1  0.0 0.0 0.0" \o q("1.5") \o m("0.0  0.0  -3.0"), "Cr2   1.0  2.5  2.50" \o q("-0.25") \o m("1.5 0 2"),
            "Total  1.25  1.5 0 -1", "", "====", "Exchange: ", "    i      j          R        J_iso(meV)          vector          distance(A)">>
       \o Join([k \in DOMAIN l |-> Block(l[k], w)])

Ways == [dir : [1..3 -> Sides], order : Orders, parts : {"all", "needed"}, inner : Orders, look : Look, remarks : BOOLEAN,
         tag : IF Wide THEN {"", "[Testing!] "} ELSE {"[Testing!] "}, cols : IF Wide THEN {4, 5, 8} ELSE {8}]
Init == way \in Ways
Next == UNCHANGED way

\* what the files mean, written down independently of the reader
V(p) == MAdd(MAdd(MScale(MOne, RNum(p.iso)), DmiMat(VNum(p.dmi))),
             << <<p.an[1], p.an[3], p.an[4]>>, <<p.an[3], p.an[2], p.an[5]>>, <<p.an[4], p.an[5], Rest(p.an)>> >>)
Key(p) == <<p.a \o (IF p.a = "Cr1" THEN "__1" ELSE "__2"), p.b \o (IF p.b = "Cr1" THEN "__1" ELSE "__2"), p.R>>
Meaning ==
    LET h == TbRead(Lines(way))
    IN /\ h.atoms = <<"Cr1__1", "Cr2__2">>
       /\ h.cell = << <<"2", "0", "0">>, <<"0", "4", "0">>, <<"0", "1", "5">> >>
       /\ h.A["Cr1__1"].pos = VZero /\ h.A["Cr2__2"].pos = <<"1/2", "1/2", "1/2">>
       /\ way.cols = 8 => h.A["Cr1__1"].spinv = <<"0", "0", "3/2">> /\ h.A["Cr2__2"].spinv = <<"-3/4", "0", "-1">>
       /\ h.A["Cr2__2"].q = (IF way.cols = 4 THEN Undef ELSE "-1/4")
       /\ <<h.dc, h.sn, h.ef, h.of>> = <<"true", "true", "-1", "-1">>
       /\ Sites(h) = {} /\ h.q = <<>> /\ h.n = <<>>
       /\ Bonds(h) = {Key(Pairs[k]) : k \in 1..3} \cup {Mirror(Key(Pairs[k])) : k \in 1..3}
       /\ \A k \in 1..3 : h.ex[Key(Pairs[k])] = MNum(V(Pairs[k])) /\ h.ex[Mirror(Key(Pairs[k]))] = MT(MNum(V(Pairs[k])))

\* conversion keeps it
E == [f |-> "exchange.out", t |-> "m.txt", fmt |-> "", sha |-> "none"]
Converted ==
    LET h == TbRead(Lines(way))
        fs == PutFile(<<>>, "exchange.out", [k |-> "tb", sha |-> "none", h |-> h])
        t == Conv(fs, E)
        u == Conv(t.fs, [E EXCEPT !.t = "spin.ham", !.fmt = "HDF5"])
        x == LoadT(u.fs, [f |-> "m.txt"]).new[1]
        y == LoadH(u.fs, [f |-> "spin.ham.hdf5", g |-> ""]).new[1]
    IN /\ t.res = "ok" /\ u.res = "ok"
       /\ DOMAIN u.fs = {"exchange.out", "m.txt", "spin.ham.hdf5"}
       /\ x.ex = h.ex /\ y.ex = h.ex /\ x.cell = h.cell /\ y.cell = h.cell
       /\ Phys([x EXCEPT !.of = "-1"]) = Phys(h) /\ Phys([y EXCEPT !.of = "-1"]) = Phys(h)
       /\ y.A = h.A
       /\ Conv(u.fs, [E EXCEPT !.t = "spin.ham", !.fmt = "HDF5"]).res = "FileExistsError"

Out == Export => PrintT("FL|" \o ToJson(Lines(way)))
=============================================================================
