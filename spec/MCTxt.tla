------------------------------ MODULE MCTxt ------------------------------
(* Ways to write one model and edits of the file, explored exhaustively.

   A line is a record [k: kind of the line, t: text].  Write gives the file for
   a way of writing w, Meaning the Hamiltonian, computed directly from the
   model.  Harmless edits keep the meaning, breaking ones make the file invalid.
   The real loader is given every explored file.                             *)
EXTENDS TxtFile, Json

CONSTANTS Depth, Export, Wide

\* a way of writing
CellUnits_ == {"", "Angstrom", "BOHR"}
Scales == {"", "2", "2 4 0.5", "-3"}
Columns == {"rel", "abs", "absbohr", "both"}
Spins == {"xyz", "angles", "value", "none", "mixed"}
Energies == {"", "meV", "eV", "Joule", "kelvin", "Rydberg"}
Values == {"matrix", "parts", "mixed"}
Orders == {"plain", "reversed"}
Terms == {"none", "ex", "on", "both"}
Extras == {"none", "rel", "abs", "angles"}
W(c, s, p, sp, e, v, o, t, x) == [cu |-> c, sc |-> s, pos |-> p, spin |-> sp, en |-> e, val |-> v, ord |-> o, terms |-> t, ex |-> x]
W0 == W("", "", "rel", "xyz", "", "matrix", "plain", "both", "none")
Good(w) == ~(w.cu = "BOHR" /\ w.sc = "-3")

EditWays == {W0, [W0 EXCEPT !.val = "mixed", !.terms = "ex", !.ex = "rel"], [W0 EXCEPT !.sc = "2", !.pos = "abs", !.terms = "on", !.spin = "angles"],
             [W0 EXCEPT !.val = "parts", !.ord = "reversed", !.ex = "angles"]}

Ways == {w \in EditWays \cup {[W0 EXCEPT !.cu = c, !.sc = s, !.pos = p] : c \in CellUnits_, s \in Scales, p \in Columns}
              \cup {[W0 EXCEPT !.cu = c, !.sc = s, !.ex = x] : c \in CellUnits_, s \in Scales, x \in Extras}
              \cup {[W0 EXCEPT !.spin = s, !.pos = p, !.ord = o] : s \in Spins, p \in Columns, o \in Orders}
              \cup {[W0 EXCEPT !.en = e, !.val = v, !.terms = t, !.ord = o] : e \in Energies, v \in Values, t \in Terms, o \in Orders}
              \cup (IF Wide THEN {W(c, s, p, sp, e, v, o, t, x) : c \in CellUnits_, s \in Scales, p \in Columns, sp \in {"xyz", "angles"},
                                    e \in {"", "eV"}, v \in {"matrix", "mixed"}, o \in Orders, t \in {"ex", "both"}, x \in Extras} ELSE {}) : Good(w)}
-----------------------------------------------------------------------------
(* The model                                                                 *)
Cell0 == << <<"2", "0", "0">>, <<"1", "2.5", "0">>, <<"0", "0.5", "4">> >>
Pos == << <<"0", "0", "0">>, <<"0.5", "0.25", "0.125">> >>      \* relative
PosAbs == << <<"0", "0", "0">>, <<"1.5", "-0.75", "2">> >>      \* absolute
SpinV == << <<"0", "0", "1.5">>, <<"1", "-2", "2">> >>
Angles == << <<"30", "45">>, <<"120", "270">> >>                \* theta, phi
Len_ == <<"1.5", "2">>
G == <<"2", "1.9">>
Name == <<"Fe1", "Cr">>
M1 == << <<"1", "0.5", "-2">>, <<"0.25", "-1.5", "3">>, <<"0", "4", "0.75">> >>
D1 == <<"0.5", "-1", "0.125">>
S1 == << <<"1", "0.5", "-1">>, <<"0.5", "0.25", "2">>, <<"-1", "2", "-1.25">> >>
I1 == "-3.5"
O1 == <<"1", "-2", "0.5", "0.25", "-0.125", "3">>               \* xx yy zz xy xz yz

BondVals(w) == CASE w.val = "matrix" -> <<[matrix |-> M1], [matrix |-> MT(M1)]>>
                 [] w.val = "parts" -> <<[iso |-> I1], [dmi |-> D1, aniso |-> S1]>>
                 [] OTHER -> <<[matrix |-> M1, iso |-> I1], [matrix |-> M1, dmi |-> D1, aniso |-> S1, iso |-> I1]>>
BondKeys == << <<1, 2, <<0, 0, 0>> >>, <<2, 2, <<1, 0, -1>> >> >>

-----------------------------------------------------------------------------
(* Its text                                                                  *)
L(k, t) == [k |-> k, t |-> t]
J3(v) == v[1] \o " " \o v[2] \o "  " \o v[3]
Sep == <<L("sep", "==========")>>
Sub == <<L("sub", "----------")>>
Hd(k, t, u) == <<L(k, IF u = "" THEN t ELSE t \o " " \o u)>>
CellText(w) == Hd("cellhead", "Cell", w.cu) \o (IF w.sc = "" THEN <<>> ELSE <<L("scale", w.sc)>>)
               \o <<L("vec", J3(Cell0[1])), L("vec", J3(Cell0[2])), L("vec", J3(Cell0[3]))>>
PosCols(w) == CASE w.pos = "rel" -> "r1 r2 r3" [] w.pos = "both" -> "x y z r1 r2 r3" [] OTHER -> "X y z"
PosText(w, i) == CASE w.pos = "rel" -> J3(Pos[i]) [] w.pos = "both" -> J3(PosAbs[i]) \o " " \o J3(Pos[i]) [] OTHER -> J3(PosAbs[i])
SpinCols(w) == CASE w.spin = "xyz" -> "sx sy sz" [] w.spin = "angles" -> "St sP s" [] w.spin = "value" -> "S"
                 [] w.spin = "mixed" -> "s sx sy sz" [] OTHER -> ""
SpinText(w, i) == CASE w.spin = "xyz" -> J3(SpinV[i]) [] w.spin = "angles" -> Angles[i][1] \o " " \o Angles[i][2] \o " " \o Len_[i]
                    [] w.spin = "value" -> Len_[i] [] w.spin = "mixed" -> Len_[i] \o " " \o J3(SpinV[i]) [] OTHER -> ""
AtomsText(w) == Hd("atomhead", "Atoms", CASE w.pos = "absbohr" -> "bohr" [] w.pos = "abs" -> "angstrom" [] OTHER -> "")
                \o <<L("cols", "g " \o PosCols(w) \o " name " \o SpinCols(w))>>
                \o <<L("row", G[1] \o " " \o PosText(w, 1) \o " " \o Name[1] \o " " \o SpinText(w, 1)),
                     L("row", G[2] \o " " \o PosText(w, 2) \o " " \o Name[2] \o " " \o SpinText(w, 2))>>
HasEx(w) == w.terms \in {"ex", "both"}
HasOn(w) == w.terms \in {"on", "both"}
NotationText(w) == <<L("nothead", "Notation"), L("not", "Spin-normalized no")>>
                   \o (IF HasEx(w) THEN <<L("not", "double-counting TRUE"), L("not", "e -0.5")>> ELSE <<>>)
                   \o (IF HasOn(w) THEN <<L("not", "On-site-factor 2.5")>> ELSE <<>>)
ValText(v) == (IF "dmi" \in DOMAIN v THEN <<L("dmi", "DMI " \o J3(v.dmi))>> ELSE <<>>)
              \o (IF "matrix" \in DOMAIN v THEN <<L("mkw", "Matrix"), L("mrow", J3(v.matrix[1])), L("mrow", J3(v.matrix[2])), L("mrow", J3(v.matrix[3]))>> ELSE <<>>)
              \o (IF "iso" \in DOMAIN v THEN <<L("iso", "isotropic " \o v.iso)>> ELSE <<>>)
              \o (IF "aniso" \in DOMAIN v THEN <<L("symm", "Symm " \o v.aniso[1][1] \o " " \o v.aniso[2][2] \o " " \o v.aniso[1][2] \o " "
                                                             \o v.aniso[1][3] \o " " \o v.aniso[2][3])>> ELSE <<>>)
BondText(w, i) == <<L("bond", Name[BondKeys[i][1]] \o " " \o Name[BondKeys[i][2]] \o " " \o ToString(BondKeys[i][3][1]) \o " "
                      \o ToString(BondKeys[i][3][2]) \o " " \o ToString(BondKeys[i][3][3]))>> \o ValText(BondVals(w)[i])
ExText(w) == Hd("exhead", "Exchange", w.en) \o Sub \o BondText(w, 1) \o Sub \o BondText(w, 2) \o Sub
OnText(w) == Hd("onhead", "On-site", w.en) \o Sub
             \o <<L("onname", Name[2]), L("onval", O1[1] \o " " \o O1[2] \o " " \o O1[3] \o " " \o O1[4] \o " " \o O1[5] \o " " \o O1[6])>> \o Sub
ConeText(w) == Hd("conehead", "Cone-axis", IF w.ex = "abs" THEN "Absolute" ELSE "")
               \o <<L("cone", IF w.ex = "angles" THEN "60 -30" ELSE "1 2 -2")>>
SpirText(w) == Hd("spirhead", "Spiral-vector", IF w.ex = "abs" THEN "Absolute" ELSE "relative") \o <<L("spir", "0.25 0 -1.5")>>
Secs(w) == <<CellText(w), AtomsText(w)>> \o (IF w.terms = "none" THEN <<>> ELSE <<NotationText(w)>>)
           \o (IF HasEx(w) THEN <<ExText(w)>> ELSE <<>>) \o (IF HasOn(w) THEN <<OnText(w)>> ELSE <<>>)
           \o (IF w.ex = "none" THEN <<>> ELSE <<ConeText(w), SpirText(w)>>)
RECURSIVE Glue(_, _)
Glue(s, k) == IF k > Len(s) THEN Sep ELSE Sep \o s[k] \o Glue(s, k + 1)
Write(w) == LET s == Secs(w) IN Glue(IF w.ord = "plain" THEN s ELSE [k \in DOMAIN s |-> s[Len(s) + 1 - k]], 1)
Text(f) == [k \in DOMAIN f |-> f[k].t]

-----------------------------------------------------------------------------
(* Its meaning                                                               *)
EFact(u) == CASE u \in {"", "meV"} -> "1" [] u = "eV" -> "1000"
              [] u = "Joule" -> RDiv("1", "1.602176634e-22")
              [] u = "kelvin" -> RDiv("1.380649e-23", "1.602176634e-22")
              [] u = "Rydberg" -> RDiv(RMul(RMul("6.62607015e-34", "299792458"), "10973731.568160"), "1.602176634e-22")
BohrA == "0.529177210903"
Stretch(w) == LET b == IF w.cu = "BOHR" THEN BohrA ELSE "1"
              IN CASE w.sc = "" -> <<"1", "1", "1">> [] w.sc = "2" -> <<"2", "2", "2">> [] w.sc = "2 4 0.5" -> <<"2", "4", "0.5">>
                   [] OTHER -> LET d == RDiv("3", "20") IN <<d, d, d>>       \* volume of Cell0 is 20
TheCell(w) == LET s == Stretch(w)
                  b == IF w.cu = "BOHR" THEN BohrA ELSE "1"
              IN [r \in 1..3 |-> [c \in 1..3 |-> RMul(Cell0[r][c], RMul(s[c], b))]]
\* relative coordinates c with c * cell = absolute ones
TheAtom(w, i) ==
    LET s == Stretch(w)
        ab == [c \in 1..3 |-> RMul(PosAbs[i][c], RMul(s[c], IF w.pos = "absbohr" THEN BohrA ELSE "1"))]
        sp == CASE w.spin \in {"xyz", "mixed"} -> VNum(SpinV[i])
                [] w.spin = "angles" -> VScale(<<RMul(RSin(Rad(Angles[i][1])), RCos(Rad(Angles[i][2]))),
                                                 RMul(RSin(Rad(Angles[i][1])), RSin(Rad(Angles[i][2]))), RCos(Rad(Angles[i][1]))>>, Len_[i])
                [] w.spin = "value" -> <<"0", "0", RNum(Len_[i])>>
                [] OTHER -> VZero
    IN [abs |-> ab, rel |-> VNum(Pos[i]), spin |-> sp]
ScaleJ(v, f) == BuildParam([x \in DOMAIN v |-> CASE x = "iso" -> RMul(v.iso, f)
                                                 [] x = "dmi" -> VScale(v.dmi, f)
                                                 [] x = "aniso" -> MScale(v.aniso, f)
                                                 [] OTHER -> MScale(v.matrix, f)])
Near(a, b) == RLe(RAbs(RSub(a, b)), "1e-40")
VNear(u, v) == Near(u[1], v[1]) /\ Near(u[2], v[2]) /\ Near(u[3], v[3])
MNear(A, B) == VNear(A[1], B[1]) /\ VNear(A[2], B[2]) /\ VNear(A[3], B[3])
Ids == <<"Fe1__1", "Cr__2">>
Key(i) == <<Ids[BondKeys[i][1]], Ids[BondKeys[i][2]], BondKeys[i][3]>>
Means(h, w) ==
    LET f == EFact(w.en)
        c == TheCell(w)
        want == IF HasEx(w) THEN UNION {{Key(i), Mirror(Key(i))} : i \in {1, 2}} ELSE {}
        n0 == <<"1", "2", "-2">>
    IN /\ MNear(h.cell, c)
       /\ h.atoms = Ids
       /\ \A i \in {1, 2} : LET a == h.A[Ids[i]]
                                x == TheAtom(w, i)
                            IN /\ a.name = Name[i] /\ a.idx = i /\ a.g = RNum(G[i]) /\ a.q = "0"
                               /\ VNear(a.spinv, x.spin)
                               /\ IF w.pos \in {"rel", "both"} THEN a.pos = x.rel ELSE VNear(VMat(a.pos, c), x.abs)
       /\ h.sn = (IF w.terms = "none" THEN Undef ELSE "false")
       /\ h.dc = (IF HasEx(w) THEN "true" ELSE Undef)
       /\ h.ef = (IF HasEx(w) THEN "-1/2" ELSE Undef)
       /\ h.of = (IF HasOn(w) THEN "5/2" ELSE Undef)
       /\ Bonds(h) = want
       /\ HasEx(w) => \A i \in {1, 2} : /\ MNear(h.ex[Key(i)], ScaleJ(BondVals(w)[i], f))
                                        /\ MNear(h.ex[Mirror(Key(i))], MT(ScaleJ(BondVals(w)[i], f)))
       /\ Sites(h) = (IF HasOn(w) THEN {Ids[2]} ELSE {})
       /\ HasOn(w) => LET o(k) == RMul(O1[k], f)
                      IN MNear(h.on[Ids[2]], << <<o(1), o(4), o(5)>>, <<o(4), o(2), o(6)>>, <<o(5), o(6), o(3)>> >>)
       /\ CASE w.ex = "none" -> h.n = <<>>
            [] w.ex = "abs" -> VNear(h.n, VScale(n0, "1/3"))
            [] w.ex = "angles" -> VNear(h.n, <<RMul(RCos(Rad("-30")), RSin(Rad("60"))), RMul(RSin(Rad("-30")), RSin(Rad("60"))), "1/2">>)
            [] OTHER -> LET m == VMat(n0, c) IN VNear(VCross(h.n, m), VZero) /\ RLt("0", VDot(h.n, m)) /\ Near(VNorm2(h.n), "1")
       /\ CASE w.ex = "none" -> h.q = <<>>
            \* q is b1 q1 + b2 q2 + b3 q3, with a_i . b_j = 2 pi delta_ij
            [] w.ex = "abs" -> LET b == IF w.cu = "BOHR" THEN BohrA ELSE "1"
                                   B == MScale(MT(MInv(c)), RMul("2", RPi))
                               IN VNear(VMat(h.q, B), VScale(<<"0.25", "0", "-1.5">>, RDiv("1", b)))
            [] OTHER -> h.q = <<"1/4", "0", "-3/2">>

-----------------------------------------------------------------------------
(* Edits                                                                     *)
Ins(f, p, l) == SubSeq(f, 1, p) \o <<l>> \o SubSeq(f, p + 1, Len(f))
Del(f, p) == SubSeq(f, 1, p - 1) \o SubSeq(f, p + 1, Len(f))
Rep(f, p, t) == [f EXCEPT ![p].t = t]

Harmless(f) ==
    {Ins(f, p, L("comment", "# Cell 1 2 3")) : p \in 0..Len(f)}
    \cup {Ins(f, p, L("comment", "  ")) : p \in 0..Len(f)}
    \cup {[f EXCEPT ![p] = L("done", @.t \o "  # 5 = x")] : p \in DOMAIN f}
    \cup {Rep(f, p, "   " \o f[p].t \o "====") : p \in {k \in DOMAIN f : f[k].k = "sep"}}
    \cup {[Ins(f, p, L("done", f[p].t)) EXCEPT ![p].k = "done"] : p \in {k \in DOMAIN f : f[k].k \in {"sep", "sub"}}}
    \cup {f \o <<L("other", "Description"), L("other", "text of user 1 2")>> \o Sep}
    \cup {Rep(f, p, SLower(f[p].t)) : p \in {k \in DOMAIN f : f[k].k \in {"cellhead", "atomhead", "cols", "nothead", "not", "exhead", "onhead", "iso", "dmi", "symm", "mkw"}}}

\* kinds of lines that can not be left out, repeated, given an additional word or a word
\* that is not a number
Needed == {"cellhead", "vec", "cols", "nothead", "not", "mkw", "mrow", "onname", "onval", "cone", "spir"}
Single == {"cellhead", "cols", "row", "nothead", "not", "bond", "dmi", "iso", "symm", "onname", "onval", "conehead", "cone", "spirhead", "spir"}
Sized == {"cellhead", "scale", "vec", "atomhead", "row", "nothead", "not", "bond", "mkw", "mrow", "dmi", "iso", "symm", "onname", "onval", "cone", "spir", "exhead", "onhead"}
Numeric == {"scale", "vec", "row", "mrow", "dmi", "iso", "symm", "onval", "cone", "spir", "bond"}
Breaking(w, f) ==
    \* a cell with a scale has one line more
    {Del(f, p) : p \in {k \in DOMAIN f : f[k].k \in Needed /\ ~(f[k].k = "vec" /\ w.sc # "")}}
    \cup {Ins(f, p, f[p]) : p \in {k \in DOMAIN f : f[k].k \in Single}}
    \cup {Rep(f, p, f[p].t \o " more 1") : p \in {k \in DOMAIN f : f[k].k \in Sized}}
    \cup {Rep(f, p, f[p].t \o "x") : p \in {k \in DOMAIN f : f[k].k \in Numeric /\ ~(f[k].k = "row" /\ w.spin = "none")}}
    \cup {Rep(f, p, "=====") : p \in {k \in DOMAIN f : f[k].k = "sep"}}
    \cup {Rep(f, p, "---") : p \in {k \in DOMAIN f : f[k].k = "sub"}}
    \cup {f \o <<f[p]>> \o <<L("x", "1 2 3")>> : p \in {k \in DOMAIN f : f[k].k \in {"cellhead", "atomhead", "nothead", "exhead", "onhead", "conehead", "spirhead"}}}
    \cup {Rep(f, p, "Unknown") : p \in {k \in DOMAIN f : f[k].k \in {"cellhead", "atomhead", "nothead"}}}

VARIABLES w, file, good, n
vars == <<w, file, good, n>>
Init == /\ w \in Ways /\ file = Write(w) /\ good = TRUE /\ n = 0
Next == /\ good /\ n < Depth /\ w \in EditWays
        /\ n' = n + 1 /\ UNCHANGED w
        /\ \/ file' \in Harmless(file) /\ good' = TRUE
           \/ file' \in Breaking(w, file) /\ good' = FALSE

Out == Export => PrintT("FL|" \o ToJson(Text(file)))
Accepted == good => Verdict(Text(file)) = "accept"
Meaning == good => Means(Read(Text(file)), w)
\* lines of a bond that are not parts of the file format make the outcome unspecified ("any")
Rejected == ~good => Verdict(Text(file)) # "accept"
=============================================================================
