----------------------------- MODULE Hdf5File -----------------------------
(* Meaning of hdf5 files in the documented layout, as other programs write
   them (units other than the ones of magnopy, nodes without order).

   A file is described by what was written into it:
     [cell: [units, v], atoms: <<[key, name, position, spin, g, (charge)]>>,
      (notation): [(dc), (sn), (ef), (of)],
      (exchange): [units, items: <<[key, a, b, ijk, matrix]>>],
      (onsite): [units, items: <<[key, a, matrix]>>],
      (spiral): [units, v], (cone): [units, v],
      drop: <<paths that are taken away>>]
   Numbers are decimal strings.  The order of atoms and parameters is the one
   of the numbers that name their groups.                                    *)
EXTENDS TxtFile

EUnitsH == {"milli-electron-volt", "electron-volt", "joule", "kelvin", "rydberg"}
EFactorH(u) == CASE SLower(u) = "milli-electron-volt" -> "1"
                 [] SLower(u) = "electron-volt" -> "1000"
                 [] SLower(u) = "joule" -> EnergyFactor("j")
                 [] SLower(u) = "kelvin" -> EnergyFactor("k")
                 [] SLower(u) = "rydberg" -> EnergyFactor("r")
LFactorH(u) == IF SLower(u) = "bohr" THEN Bohr ELSE "1"

InH(T, f) == f \in DOMAIN T
\* entries by number
ByKey(l) == SortSeq(l, LAMBDA x, y : x.key < y.key)
PathOf(s, k, n) == s \o "/" \o ToString(k) \o "/" \o n

\* what a file can not do without
Needed(T) ==
    {"cell", "cell/a1", "cell/a2", "cell/a3", "cell@units", "atoms"}
    \cup UNION {{PathOf("atoms", T.atoms[i].key, x) : x \in {"name", "position"}} : i \in DOMAIN T.atoms}
    \cup (IF InH(T, "exchange") \/ InH(T, "onsite") THEN {"notation", "notation/spin-normalized"} ELSE {})
    \cup (IF InH(T, "exchange")
          THEN {"exchange@units", "notation/double-counting", "notation/exchange-factor"}
               \cup UNION {{PathOf("exchange", T.exchange.items[i].key, x) : x \in {"atom-1", "atom-2", "ijk", "matrix"}} : i \in DOMAIN T.exchange.items}
          ELSE {})
    \cup (IF InH(T, "onsite")
          THEN {"on-site@units", "notation/on-site-factor"}
               \cup UNION {{PathOf("on-site", T.onsite.items[i].key, x) : x \in {"atom", "matrix"}} : i \in DOMAIN T.onsite.items}
          ELSE {})
    \cup (IF InH(T, "spiral") THEN {"spiral-vector@units"} ELSE {})
    \cup (IF InH(T, "cone") THEN {"cone-axis@units"} ELSE {})

NamesH(T) == {T.atoms[i].name : i \in DOMAIN T.atoms}
ReferH(T) == (IF InH(T, "exchange") THEN UNION {{T.exchange.items[i].a, T.exchange.items[i].b} : i \in DOMAIN T.exchange.items} ELSE {})
             \cup (IF InH(T, "onsite") THEN {T.onsite.items[i].a : i \in DOMAIN T.onsite.items} ELSE {})
\* the name of one atom, or its full name
IdsH(T) == LET l == ByKey(T.atoms) IN [i \in DOMAIN l |-> l[i].name \o "__" \o ToString(i)]
OnceH(T, s) == Cardinality({i \in DOMAIN T.atoms : T.atoms[i].name = s}) = 1
RefersH(T, s) == OnceH(T, s) \/ s \in Ran(IdsH(T))

UnitsH(T) ==
    /\ SLower(T.cell.units) \in {"bohr", "angstrom"}
    /\ InH(T, "exchange") => SLower(T.exchange.units) \in EUnitsH
    /\ InH(T, "onsite") => SLower(T.onsite.units) \in EUnitsH
    /\ InH(T, "spiral") => SLower(T.spiral.units) \in {"relative", "absolute"}
    /\ InH(T, "cone") => SLower(T.cone.units) \in {"relative", "absolute"}

ProblemH(T) == CASE Ran(T.drop) \cap Needed(T) # {} -> "something is missing"
                 [] ~UnitsH(T) -> "unknown units"
                 [] \E s \in ReferH(T) : ~RefersH(T, s) -> "unknown atom"
                 [] OTHER -> "none"

-----------------------------------------------------------------------------
AtomH(T, a, i) == [name |-> a.name, idx |-> i, rank |-> i, pos |-> VNum(a.position), spinv |-> VNum(a.spin), spin |-> VNorm(VNum(a.spin)),
                   g |-> RNum(a.g),
                   q |-> IF "charge" \in DOMAIN a /\ PathOf("atoms", a.key, "charge") \notin Ran(T.drop) THEN RNum(a.charge) ELSE Undef]
RefH(T, s) == IF s \in Ran(IdsH(T)) THEN [k |-> "obj", id |-> s] ELSE NameRef(s)

RECURSIVE BondsH(_, _, _, _, _)
BondsH(T, h, l, k, f) ==
    IF k > Len(l) THEN h
    ELSE BondsH(T, TLCEval(AddExchange(h, RefH(T, l[k].a), RefH(T, l[k].b), l[k].ijk, TLCEval(MScale(MNum(l[k].matrix), f))).st), l, k + 1, f)
RECURSIVE SitesH(_, _, _, _, _)
SitesH(T, h, l, k, f) ==
    IF k > Len(l) THEN h
    ELSE SitesH(T, TLCEval(AddOnSite(h, RefH(T, l[k].a), TLCEval(MScale(MNum(l[k].matrix), f))).st), l, k + 1, f)

\* relative to the reciprocal cell: q = sum_i (q.a_i / 2 pi) b_i
SpiralH(v, u, cell) ==
    IF SLower(u) = "relative" THEN v
    ELSE LET t == RMul("2", RPi) IN [i \in 1..3 |-> RDiv(VDot(v, cell[i]), t)]
ConeH(v, u, cell) == VUnit(IF SLower(u) = "relative" THEN VMat(v, cell) ELSE v)

ReadH5(T) ==
    LET cell == TLCEval(MScale(MNum(T.cell.v), LFactorH(T.cell.units)))
        l == ByKey(T.atoms)
        ids == IdsH(T)
        A == [x \in Ran(ids) |-> LET i == CHOOSE i \in DOMAIN ids : ids[i] = x IN AtomH(T, l[i], i)]
        h0 == EmptyHam(A, cell, ids)
        ex == InH(T, "exchange")
        on == InH(T, "onsite")
        h1 == IF ex \/ on THEN [h0 EXCEPT !.sn = T.notation.sn] ELSE h0
        h2 == IF ex THEN BondsH(T, [h1 EXCEPT !.dc = T.notation.dc, !.ef = RNum(T.notation.ef)], ByKey(T.exchange.items), 1, EFactorH(T.exchange.units)) ELSE h1
        h3 == IF on THEN SitesH(T, [h2 EXCEPT !.of = RNum(T.notation.of)], ByKey(T.onsite.items), 1, EFactorH(T.onsite.units)) ELSE h2
        h4 == IF InH(T, "spiral") THEN [h3 EXCEPT !.q = SpiralH(VNum(T.spiral.v), T.spiral.units, cell)] ELSE h3
    IN IF InH(T, "cone") THEN [h4 EXCEPT !.n = ConeH(VNum(T.cone.v), T.cone.units, cell)] ELSE h4
=============================================================================
