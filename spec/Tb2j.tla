------------------------------- MODULE Tb2j -------------------------------
(* The result file of TB2J (exchange.out): which Hamiltonian it describes.
   A file is a sequence of lines.
     "Cell (Angstrom):"  three lines with the vectors
     "Atoms:"            two lines of remarks, then one line per atom
                         "name x y z charge Mx My Mz" (Angstrom, the last
                         columns may be missing) up to the line "Total ..."
     "Exchange:"         blocks, each after a line of 88 (or more) dashes:
                         "atom1 atom2 ( i, j, k) ... distance", then any of
                         "J_iso: x", "DMI: ( x y z)" and "J_ani:" followed by
                         three lines of a matrix, in any order, and remarks  *)
EXTENDS Ham, Str

RECURSIVE Dashes(_)
Dashes(n) == IF n = 0 THEN "" ELSE Dashes(n - 1) \o "-"
MinorSep == TLCEval(Dashes(88))
TbWords(l) == SSplit(SErase(l, "()[],'"))

LinesWith(L, s) == {k \in DOMAIN L : SHas(L[k], s)}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
TbLine(L, s) == First(LinesWith(L, s))

TbCell(L) == LET k == TbLine(L, "Cell (Angstrom):")
             IN <<VNum(SSplit(L[k + 1])), VNum(SSplit(L[k + 2])), VNum(SSplit(L[k + 3]))>>

RECURSIVE TbRows(_, _)
TbRows(L, k) == IF k > Len(L) \/ "Total" \in Ran(SSplit(L[k])) THEN <<>>
                ELSE <<SSplit(L[k])>> \o TbRows(L, k + 1)
\* charges and moments are known if the columns are there, spins are opposite to
\* the moments of g = 2
TbAtom(w, k, inv) ==
    LET s == IF Len(w) >= 8 THEN VScale(VNum(<<w[6], w[7], w[8]>>), "-1/2") ELSE VZero
    IN [name |-> w[1], idx |-> k, rank |-> k, pos |-> VMat(VNum(<<w[2], w[3], w[4]>>), inv),
        spinv |-> s, spin |-> VNorm(s), g |-> "2", q |-> IF Len(w) >= 5 THEN RNum(w[5]) ELSE Undef]

\* blocks: sequences of lines
RECURSIVE TbBlocks(_, _, _)
TbBlocks(L, k, b) ==
    IF k > Len(L) THEN (IF b = <<>> THEN <<>> ELSE <<b>>)
    ELSE IF SHas(L[k], MinorSep) THEN (IF b = <<>> THEN <<>> ELSE <<b>>) \o TbBlocks(L, k + 1, <<>>)
    ELSE TbBlocks(L, k + 1, Append(b, L[k]))
TbExchange(L) == LET k == TbLine(L, "Exchange:")
                     s == {j \in LinesWith(L, MinorSep) : j > k}
                 IN IF s = {} THEN <<>> ELSE TbBlocks(L, First(s) + 1, <<>>)
TbBond(b) == LET w == TbWords(b[1]) IN <<w[1], w[2], <<SInt(w[3]), SInt(w[4]), SInt(w[5])>>>>
TbValue(b) ==
    LET at(s) == LinesWith(b, s)
        last(w, n) == [k \in 1..n |-> RNum(w[Len(w) - n + k])]
        k == First(at("J_ani:"))
    IN (IF at("J_iso:") = {} THEN <<>> ELSE [iso |-> last(SSplit(b[First(at("J_iso:"))]), 1)[1]])
       @@ (IF at("DMI:") = {} THEN <<>> ELSE [dmi |-> last(TbWords(b[First(at("DMI:"))]), 3)])
       @@ (IF at("J_ani:") = {} THEN <<>> ELSE [aniso |-> <<VNum(TbWords(b[k + 1])), VNum(TbWords(b[k + 2])), VNum(TbWords(b[k + 3]))>>])

RECURSIVE TbBonds(_, _, _)
TbBonds(h, bs, k) ==
    IF k > Len(bs) THEN h
    ELSE LET b == TbBond(bs[k])
             r == AddExchange(h, [k |-> "name", id |-> b[1]], [k |-> "name", id |-> b[2]], b[3], TLCEval(BuildParam(TbValue(bs[k]))))
         IN TbBonds(TLCEval(r.st), bs, k + 1)

TbRead(L) ==
    LET cell == TLCEval(TbCell(L))
        inv == TLCEval(MInv(cell))
        rows == TbRows(L, TbLine(L, "Atoms:") + 3)
        list == TLCEval([k \in DOMAIN rows |-> TbAtom(rows[k], k, inv)])
        id(k) == list[k].name \o "__" \o ToString(k)
        A == [x \in {id(k) : k \in DOMAIN list} |-> list[CHOOSE k \in DOMAIN list : id(k) = x]]
        h == SetByName(EmptyHam(A, cell, [k \in DOMAIN list |-> id(k)]), "tb2j").st
    IN TbBonds(h, TbExchange(L), 1)
=============================================================================
