----------------------------- MODULE TxtFile -----------------------------
(* The text model file: which files follow the format (Verdict) and which
   Hamiltonian a file describes (Read).  A file is a sequence of lines.      *)
EXTENDS Ham, Str

-----------------------------------------------------------------------------
(* Lines and sections                                                        *)
Clean(l) == SStrip(SBefore(l, "#"))
\* without comments and blank lines
Filtered(raw) == SelectSeq([k \in DOMAIN raw |-> Clean(raw[k])], LAMBDA l : l # "")

Ten(c) == IF c = "=" THEN "==========" ELSE "----------"
IsSep(l, c) == SStarts(l, Ten(c))
ShortSep(l, c) == SOnly(l, c) /\ ~IsSep(l, c)

\* pieces between the separators, without empty ones
RECURSIVE Cut(_, _, _, _)
Cut(lines, c, k, piece) ==
    IF k > Len(lines) THEN (IF piece = <<>> THEN <<>> ELSE <<piece>>)
    ELSE IF IsSep(lines[k], c) THEN (IF piece = <<>> THEN <<>> ELSE <<piece>>) \o Cut(lines, c, k + 1, <<>>)
    ELSE Cut(lines, c, k + 1, Append(piece, lines[k]))
Pieces(lines, c) == TLCEval(Cut(lines, c, 1, <<>>))

Sections(raw) == Pieces(Filtered(raw), "=")
Kw(sec) == SLower(SSplit(sec[1])[1])
Supported == {"cell", "atoms", "notation", "exchange", "on-site", "cone-axis", "spiral-vector"}
Has(secs, kw) == \E k \in DOMAIN secs : Kw(secs[k]) = kw
Sec(secs, kw) == secs[CHOOSE k \in DOMAIN secs : Kw(secs[k]) = kw]

Words(l) == SSplit(l)
Numbers(l, n) == LET w == Words(l) IN Len(w) = n /\ \A k \in DOMAIN w : SIsDec(w[k])
\* a keyword and n numbers
KwNumbers(l, n) == LET w == Words(l) IN Len(w) = n + 1 /\ \A k \in 2..Len(w) : SIsDec(w[k])
HeaderOk(l, units) == LET w == Words(SLower(l))
                      IN Len(w) = 1 \/ (Len(w) = 2 /\ SChar(w[2], 1) \in units)
UnitsOf(l, dflt) == LET w == Words(SLower(l)) IN IF Len(w) = 2 THEN SChar(w[2], 1) ELSE dflt
EnergyUnits == {"m", "e", "j", "k", "r"}
Trues == {"true", "t", "yes", "y", "1"}
Falses == {"false", "f", "no", "n", "0"}

-----------------------------------------------------------------------------
(* The format.  XBad: what is wrong with a section, "ok" if nothing          *)
CellBad(c) ==
    CASE Len(c) \notin {4, 5} -> "cell: number of lines"
      [] ~HeaderOk(c[1], {"a", "b"}) -> "cell: header"
      [] Len(c) = 5 /\ ~Numbers(c[2], 1) /\ ~Numbers(c[2], 3) -> "cell: scale"
      [] Len(c) = 5 /\ Numbers(c[2], 1) /\ RNum(Words(c[2])[1]) = "0" -> "cell: zero scale"
      [] Len(c) = 5 /\ Numbers(c[2], 3) /\ \E k \in 1..3 : RLe(Words(c[2])[k], "0") -> "cell: negative scale"
      [] \E k \in (Len(c) - 2)..Len(c) : ~Numbers(c[k], 3) -> "cell: vector"
      [] OTHER -> "ok"

AtomHeader(c) == Words(SLower(c[2]))
Col(hd, w) == CHOOSE k \in DOMAIN hd : hd[k] = w
VecKw(x) == {x, x \o "x", x \o "y", x \o "z", x \o "p", x \o "t"}
VecSets(x) == LET a == x  xyz == {x \o "x", x \o "y", x \o "z"}
              IN {{}, {a}, xyz, {a, x \o "p", x \o "t"}, {a} \cup xyz, VecKw(x)}
RelKw == {"r1", "r2", "r3"}
AbsKw == {"x", "y", "z"}
NameOk(w) == SAlnum(SChar(w, 1)) /\ ~SStarts(w, "__") /\ ~SEnds(w, "__")
AtomsBad(c) ==
    IF Len(c) < 3 THEN "atoms: number of lines"
    ELSE LET hd == AtomHeader(c)
             kws == Ran(hd)
             pos == kws \cap (RelKw \cup AbsKw)
             row(k) == Words(c[k])
             full == {k \in 3..Len(c) : Len(row(k)) = Len(hd)}
         IN CASE ~HeaderOk(c[1], {"a", "b", "r"}) -> "atoms: header"
              [] Cardinality(kws) # Len(hd) -> "atoms: repeated column"
              [] "name" \notin kws -> "atoms: no names"
              [] pos \notin {RelKw, AbsKw, RelKw \cup AbsKw} -> "atoms: position columns"
              [] \E x \in {"s", "l", "j"} : kws \cap VecKw(x) \notin VecSets(x) -> "atoms: vector columns"
              [] Cardinality(full) # Len(c) - 2 -> "atoms: number of blocks"
              [] \E k \in full : ~NameOk(row(k)[Col(hd, "name")]) -> "atoms: name"
              [] Cardinality({row(k)[Col(hd, "name")] : k \in full}) # Len(c) - 2 -> "atoms: repeated name"
              [] \E k \in full : \E w \in (IF "r1" \in kws THEN RelKw ELSE AbsKw) : row(k)[Col(hd, w)] = "-"
                    -> "atoms: skipped position"
              [] \E k \in full : \E j \in DOMAIN hd : hd[j] # "name" /\ row(k)[j] # "-" /\ ~SIsDec(row(k)[j])
                    -> "atoms: not a number"
              [] OTHER -> "ok"
\* columns that are not of the format: the ones which look like misspelled known
\* ones are not decided here
AtomsOdd(c) == IF Len(c) < 3 THEN FALSE
               ELSE \/ \E w \in Ran(AtomHeader(c)) \ (RelKw \cup AbsKw \cup VecKw("s") \cup VecKw("l") \cup VecKw("j") \cup {"name", "g", "q"}) :
                         SChar(w, 1) \in {"r", "s", "l", "j"} \/ w \in {"xy", "yz", "xyz"}
                    \/ \E k \in 3..Len(c) : \E w \in Ran(Words(c[k])) : SHas(w, "__") /\ ~SStarts(w, "__") /\ ~SEnds(w, "__")

AtomNames(c) == LET hd == AtomHeader(c)
                IN {Words(c[k])[Col(hd, "name")] : k \in 3..Len(c)}

NotationBad(c, ex, on) ==
    LET w(k) == Words(SLower(c[k]))
        key(k) == SChar(w(k)[1], 1)
        keys == {key(k) : k \in 2..Len(c)}
    IN CASE Len(w(1)) # 1 -> "notation: header"
         [] \E k \in 2..Len(c) : Len(w(k)) # 2 -> "notation: blocks"
         [] Cardinality(keys) # Len(c) - 1 -> "notation: repeated"
         [] ex /\ ~({"d", "s", "e"} \subseteq keys) -> "notation: missing for exchange"
         [] on /\ ~({"s", "o"} \subseteq keys) -> "notation: missing for on-site"
         [] \E k \in 2..Len(c) : key(k) \in {"d", "s"} /\ w(k)[2] \notin (Trues \cup Falses) -> "notation: boolean"
         [] \E k \in 2..Len(c) : key(k) \in {"e", "o"} /\ ~SIsDec(w(k)[2]) -> "notation: factor"
         [] OTHER -> "ok"

\* body of a bond from line k, seen: keywords that were found
RECURSIVE BodyBad(_, _, _)
BodyBad(b, k, seen) ==
    IF k > Len(b) THEN (IF seen = {} THEN "bond: no value" ELSE "ok")
    ELSE LET f == SChar(SLower(b[k]), 1)
         IN CASE f \notin {"i", "d", "s", "m"} -> "odd"
              [] f \in seen -> "bond: repeated value"
              [] f = "i" -> IF KwNumbers(b[k], 1) THEN BodyBad(b, k + 1, seen \cup {f}) ELSE "bond: isotropic"
              [] f = "d" -> IF KwNumbers(b[k], 3) THEN BodyBad(b, k + 1, seen \cup {f}) ELSE "bond: dmi"
              [] f = "s" -> IF KwNumbers(b[k], 5) THEN BodyBad(b, k + 1, seen \cup {f}) ELSE "bond: symmetric"
              [] OTHER -> IF Len(Words(b[k])) = 1 /\ k + 3 <= Len(b) /\ \A j \in 1..3 : Numbers(b[k + j], 3)
                          THEN BodyBad(b, k + 4, seen \cup {f}) ELSE "bond: matrix"
BondHeadBad(l, names) ==
    LET w == Words(l)
    IN CASE Len(w) # 5 -> "bond: header"
         [] w[1] \notin names \/ w[2] \notin names -> "bond: atom"
         [] \E k \in 3..5 : ~SIsInt(w[k]) -> "bond: indices"
         [] OTHER -> "ok"

BondList(c) == Pieces(Tail(c), "-")
ExchangeBad(c, names) ==
    LET bs == BondList(c)
    IN CASE ~HeaderOk(c[1], EnergyUnits) -> "exchange: header"
         [] \E k \in 2..Len(c) : ShortSep(c[k], "-") -> "exchange: short separator"
         [] Len(bs) = 0 -> "exchange: no bonds"
         [] \E k \in DOMAIN bs : BondHeadBad(bs[k][1], names) # "ok"
              -> BondHeadBad(bs[CHOOSE k \in DOMAIN bs : BondHeadBad(bs[k][1], names) # "ok"][1], names)
         [] \E k \in DOMAIN bs : BodyBad(bs[k], 2, {}) \notin {"ok", "odd"}
              -> BodyBad(bs[CHOOSE k \in DOMAIN bs : BodyBad(bs[k], 2, {}) \notin {"ok", "odd"}], 2, {})
         [] OTHER -> "ok"
ExchangeOdd(c) == LET bs == BondList(c) IN \E k \in DOMAIN bs : BodyBad(bs[k], 2, {}) = "odd"

\* lines of the on-site section without separators: pairs of name and values
OnSiteLines(c) == SelectSeq(Tail(c), LAMBDA l : ~IsSep(l, "-"))
OnSiteBad(c, names) ==
    LET ls == OnSiteLines(c)
    IN CASE ~HeaderOk(c[1], EnergyUnits) -> "on-site: header"
         [] \E k \in 2..Len(c) : ShortSep(c[k], "-") -> "on-site: short separator"
         [] Len(ls) = 0 -> "on-site: no parameters"
         \* separators inside of a parameter
         [] \E p \in Ran(Pieces(Tail(c), "-")) : Len(p) % 2 # 0 -> "on-site: incomplete"
         [] \E k \in DOMAIN ls : k % 2 = 1 /\ (Len(Words(ls[k])) # 1 \/ ls[k] \notin names) -> "on-site: atom"
         [] \E k \in DOMAIN ls : k % 2 = 0 /\ ~Numbers(ls[k], 6) -> "on-site: numbers"
         [] OTHER -> "ok"

ConeBad(c) == CASE Len(c) # 2 -> "cone axis: lines"
                [] ~HeaderOk(c[1], {"a", "r"}) -> "cone axis: header"
                [] ~Numbers(c[2], 2) /\ ~Numbers(c[2], 3) -> "cone axis: numbers"
                [] OTHER -> "ok"
SpiralBad(c) == CASE Len(c) # 2 -> "spiral vector: lines"
                  [] ~HeaderOk(c[1], {"a", "r"}) -> "spiral vector: header"
                  [] ~Numbers(c[2], 3) -> "spiral vector: numbers"
                  [] OTHER -> "ok"

\* the first problem of a file, "ok" if it follows the format
Problem(raw) ==
    LET lines == Filtered(raw)
        secs == Pieces(lines, "=")
        ex == Has(secs, "exchange")
        on == Has(secs, "on-site")
    IN CASE \E k \in DOMAIN lines : ShortSep(lines[k], "=") -> "short separator"
         [] ~Has(secs, "cell") -> "no cell section"
         [] ~Has(secs, "atoms") -> "no atoms section"
         [] \E j, k \in DOMAIN secs : j # k /\ Kw(secs[j]) = Kw(secs[k]) /\ Kw(secs[j]) \in Supported -> "repeated section"
         [] (ex \/ on) /\ ~Has(secs, "notation") -> "no notation section"
         [] OTHER ->
              LET c == CellBad(Sec(secs, "cell"))
                  a == AtomsBad(Sec(secs, "atoms"))
                  names == IF a = "ok" THEN AtomNames(Sec(secs, "atoms")) ELSE {}
                  n == IF Has(secs, "notation") THEN NotationBad(Sec(secs, "notation"), ex, on) ELSE "ok"
                  x == IF ex /\ a = "ok" THEN ExchangeBad(Sec(secs, "exchange"), names) ELSE "ok"
                  o == IF on /\ a = "ok" THEN OnSiteBad(Sec(secs, "on-site"), names) ELSE "ok"
                  t == IF Has(secs, "cone-axis") THEN ConeBad(Sec(secs, "cone-axis")) ELSE "ok"
                  s == IF Has(secs, "spiral-vector") THEN SpiralBad(Sec(secs, "spiral-vector")) ELSE "ok"
                  all == <<c, a, n, x, o, t, s>>
              IN IF \E k \in DOMAIN all : all[k] # "ok" THEN all[CHOOSE k \in DOMAIN all : all[k] # "ok" /\ \A j \in 1..(k - 1) : all[j] = "ok"] ELSE "ok"

\* files which the documented format does not decide
Odd(raw) ==
    LET lines == Filtered(raw)
        secs == Pieces(lines, "=")
    IN \/ \E k \in DOMAIN lines : (IsSep(lines[k], "=") /\ ~SOnly(lines[k], "=")) \/ (IsSep(lines[k], "-") /\ ~SOnly(lines[k], "-"))
       \/ \E k \in DOMAIN lines : \E j \in DOMAIN Words(lines[k]) : SOdd(Words(lines[k])[j])
       \/ Has(secs, "atoms") /\ AtomsOdd(Sec(secs, "atoms"))
       \/ Has(secs, "exchange") /\ ExchangeOdd(Sec(secs, "exchange"))

CellVectors(c) == LET m == Len(c) - 3
                  IN <<VNum(Words(c[m + 1])), VNum(Words(c[m + 2])), VNum(Words(c[m + 3]))>>
\* well-formed files without a meaning
Senseless(raw) ==
    LET secs == Sections(raw)
        c == Sec(secs, "cell")
        nt == Sec(secs, "notation")
        zero(f) == \E k \in 2..Len(nt) : SStarts(SLower(nt[k]), f) /\ RNum(Words(nt[k])[2]) = "0"
    IN \/ MDet(CellVectors(c)) = "0"
       \* units of the desired volume
       \/ Len(c) = 5 /\ UnitsOf(c[1], "a") = "b" /\ Numbers(c[2], 1) /\ RLt(Words(c[2])[1], "0")
       \* the sign of reciprocal vectors of a left-handed cell is a matter of convention
       \/ Has(secs, "spiral-vector") /\ UnitsOf(Sec(secs, "spiral-vector")[1], "r") = "a" /\ RLt(MDet(CellVectors(c)), "0")
       \/ Has(secs, "cone-axis") /\ Numbers(Sec(secs, "cone-axis")[2], 3) /\ VNum(Words(Sec(secs, "cone-axis")[2])) = VZero
       \/ (Has(secs, "exchange") \/ Has(secs, "on-site")) /\ (zero("e") \/ zero("o"))

Verdict(raw) == CASE Odd(raw) -> "any"
                  [] Problem(raw) # "ok" -> "reject"
                  [] Senseless(raw) -> "any"
                  [] OTHER -> "accept"

-----------------------------------------------------------------------------
(* Meaning of a file that follows the format                                 *)
Meter == "1e-10"                           \* units of length of magnopy: Angstrom
Joule == "1.602176634e-22"                 \* units of energy of magnopy: meV
Bohr == RDiv("5.29177210903e-11", Meter)
LengthFactor(u) == IF u = "b" THEN Bohr ELSE "1"
EnergyFactor(u) == CASE u = "m" -> "1"
                     [] u = "e" -> "1000"
                     [] u = "j" -> RDiv("1", Joule)
                     [] u = "k" -> RDiv("1.380649e-23", Joule)
                     [] u = "r" -> RDiv(RMul(RMul("6.62607015e-34", "299792458"), "10973731.568160"), Joule)

CellUnits(c) == LengthFactor(UnitsOf(c[1], "a"))
\* scale factors of the components
Scale(c) ==
    IF Len(c) = 4 THEN <<"1", "1", "1">>
    ELSE IF Numbers(c[2], 3) THEN VNum(Words(c[2]))
    ELSE LET s == RNum(Words(c[2])[1])
             f == IF RLe("0", s) THEN s
                  ELSE RDiv(RAbs(s), RAbs(MDet(MScale(CellVectors(c), CellUnits(c)))))
         IN <<f, f, f>>
VTimes(u, v) == <<RMul(u[1], v[1]), RMul(u[2], v[2]), RMul(u[3], v[3])>>
ReadCell(c) == LET m == MScale(CellVectors(c), CellUnits(c))
                   s == Scale(c)
               IN <<VTimes(m[1], s), VTimes(m[2], s), VTimes(m[3], s)>>

Rad(x) == RDiv(RMul(x, RPi), "180")
Polar(s, th, ph) == <<RMul(s, RMul(RSin(Rad(th)), RCos(Rad(ph)))),
                      RMul(s, RMul(RSin(Rad(th)), RSin(Rad(ph)))),
                      RMul(s, RCos(Rad(th)))>>

ReadAtom(hd, w, k, cell, scale, units) ==
    LET has(x) == x \in Ran(hd)
        val(x, d) == LET y == w[Col(hd, x)] IN IF y = "-" THEN d ELSE RNum(y)
        opt(x, d) == IF has(x) THEN val(x, d) ELSE d
        raw(x, y, z) == <<RNum(w[Col(hd, x)]), RNum(w[Col(hd, y)]), RNum(w[Col(hd, z)])>>
        pos == IF has("r1") THEN raw("r1", "r2", "r3")
               ELSE VMat(VScale(VTimes(raw("x", "y", "z"), scale), units), MInv(cell))
        spin == CASE has("sx") -> <<val("sx", "0"), val("sy", "0"), val("sz", "0")>>
                  [] has("sp") -> Polar(val("s", "0"), val("st", "0"), val("sp", "0"))
                  [] has("s") -> <<"0", "0", val("s", "0")>>
                  [] OTHER -> VZero
    IN [name |-> w[Col(hd, "name")], idx |-> k, rank |-> k, pos |-> pos, spinv |-> spin,
        spin |-> VNorm(spin), g |-> opt("g", "2"), q |-> opt("q", "0")]

AtomId(a) == a.name \o "__" \o ToString(a.idx)

\* value of a bond from line k on
RECURSIVE ReadBody(_, _, _, _)
ReadBody(b, k, f, v) ==
    IF k > Len(b) THEN v
    ELSE LET x == SChar(SLower(b[k]), 1)
             w == Words(b[k])
             n(j) == RMul(w[j + 1], f)
         IN CASE x = "i" -> ReadBody(b, k + 1, f, v @@ [iso |-> n(1)])
              [] x = "d" -> ReadBody(b, k + 1, f, v @@ [dmi |-> <<n(1), n(2), n(3)>>])
              [] x = "s" -> ReadBody(b, k + 1, f, v @@ [aniso |-> << <<n(1), n(3), n(4)>>, <<n(3), n(2), n(5)>>,
                                                                    <<n(4), n(5), RNeg(RAdd(n(1), n(2)))>> >>])
              [] OTHER -> ReadBody(b, k + 4, f, v @@ [matrix |-> MScale(<<VNum(Words(b[k + 1])), VNum(Words(b[k + 2])), VNum(Words(b[k + 3]))>>, f)])

NameRef(s) == [k |-> "name", id |-> s]
RECURSIVE ReadBonds(_, _, _, _)
ReadBonds(h, bs, k, f) ==
    IF k > Len(bs) THEN h
    ELSE LET w == Words(bs[k][1])
             r == AddExchange(h, NameRef(w[1]), NameRef(w[2]), <<SInt(w[3]), SInt(w[4]), SInt(w[5])>>,
                              TLCEval(BuildParam(ReadBody(bs[k], 2, f, <<>>))))
         IN ReadBonds(TLCEval(r.st), bs, k + 1, f)
RECURSIVE ReadSites(_, _, _, _)
ReadSites(h, ls, k, f) ==
    IF k > Len(ls) THEN h
    ELSE LET w == VNum(Words(ls[k + 1]))
             n(j) == RMul(Words(ls[k + 1])[j], f)
             J == << <<n(1), n(4), n(5)>>, <<n(4), n(2), n(6)>>, <<n(5), n(6), n(3)>> >>
         IN ReadSites(TLCEval(AddOnSite(h, NameRef(ls[k]), J).st), ls, k + 2, f)

ReadNotationSec(h, c) ==
    LET line(f) == {k \in 2..Len(c) : SStarts(SLower(c[k]), f)}
        val(f) == SLower(Words(c[CHOOSE k \in line(f) : TRUE])[2])
        bool(f) == IF line(f) = {} THEN Undef ELSE B2S(val(f) \in Trues)
        numb(f) == IF line(f) = {} THEN Undef ELSE RNum(val(f))
    IN [h EXCEPT !.dc = bool("d"), !.sn = bool("s"), !.ef = numb("e"), !.of = numb("o")]

ReadCone(c, cell) ==
    LET w == Words(c[2])
    IN IF Len(w) = 2 THEN Polar("1", RNum(w[1]), RNum(w[2]))
       ELSE IF UnitsOf(c[1], "r") = "r" THEN VUnit(VMat(VNum(w), cell)) ELSE VUnit(VNum(w))
\* absolute coordinates in inverse units of length of the cell section, 2 pi included
ReadSpiral(c, cell, units) ==
    LET w == VNum(Words(c[2]))
        q == VScale(w, RDiv("1", units))
    IN IF UnitsOf(c[1], "r") = "r" THEN w
       ELSE LET t == RMul("2", RPi)
            IN <<RDiv(VDot(q, cell[1]), t), RDiv(VDot(q, cell[2]), t), RDiv(VDot(q, cell[3]), t)>>

Read(raw) ==
    LET secs == Sections(raw)
        c == Sec(secs, "cell")
        a == Sec(secs, "atoms")
        cell == TLCEval(ReadCell(c))
        scale == Scale(c)
        hd == AtomHeader(a)
        list == TLCEval([k \in 1..(Len(a) - 2) |-> ReadAtom(hd, Words(a[k + 2]), k, cell, scale, LengthFactor(UnitsOf(a[1], "a")))])
        A == [x \in {AtomId(list[k]) : k \in DOMAIN list} |-> list[CHOOSE k \in DOMAIN list : AtomId(list[k]) = x]]
        h0 == EmptyHam(A, cell, [k \in DOMAIN list |-> AtomId(list[k])])
        ex == Has(secs, "exchange")
        on == Has(secs, "on-site")
        h1 == IF ex \/ on THEN ReadNotationSec(h0, Sec(secs, "notation")) ELSE h0
        h2 == IF ex THEN ReadBonds(h1, BondList(Sec(secs, "exchange")), 1, EnergyFactor(UnitsOf(Sec(secs, "exchange")[1], "m"))) ELSE h1
        h3 == IF on THEN ReadSites(h2, OnSiteLines(Sec(secs, "on-site")), 1, EnergyFactor(UnitsOf(Sec(secs, "on-site")[1], "m"))) ELSE h2
        h4 == IF Has(secs, "cone-axis") THEN [h3 EXCEPT !.n = ReadCone(Sec(secs, "cone-axis"), cell)] ELSE h3
    IN IF Has(secs, "spiral-vector") THEN [h4 EXCEPT !.q = ReadSpiral(Sec(secs, "spiral-vector"), cell, CellUnits(c))] ELSE h4
=============================================================================
