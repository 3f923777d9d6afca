------------------------------ MODULE Commands ------------------------------
(* The commands magnopy-magnon-dispersion and magnopy-minimize-energy: they load
   a Hamiltonian from a file and write results to new files; no other file is
   touched.  Events dispcmd and mincmd; field val describes what was written. *)
EXTENDS Store

CommandOps == {"dispcmd", "mincmd"}

\* the Hamiltonian the command works with
Input(fs, e) == LoadAny(fs, e)

-----------------------------------------------------------------------------
(* Dispersion along a path.  e.val: [new, nrows, ncols, ids, S, rows, info]   *)
Rcp2Pi(cell) == LET r == MT(MInv(cell))
                IN IF RLt(MDet(cell), "0") THEN MScale(r, RMul("-2", RPi)) ELSE MScale(r, RMul("2", RPi))
\* names of the files; e.dir: where they are expected ("" for the folder of the input)
DispFiles(e) ==
    LET base == IF e.os = "" THEN "dispersion" ELSE e.os
    IN {e.dir \o base \o ".png"} \cup (IF ~e.st THEN {} ELSE IF e.jo THEN {e.dir \o base \o ".txt"}
                                       ELSE {e.dir \o base \o "_data.txt", e.dir \o base \o "_info.txt"})
PointOf(e, name) == IF name = "G" THEN VZero ELSE LET k == CHOOSE j \in DOMAIN e.kps : e.kps[j].name = name IN VNum(e.kps[k].x)
\* segments of the path as pairs of points
RECURSIVE Segments(_, _)
Segments(e, sub) == IF Len(sub) < 2 THEN <<>> ELSE <<<<PointOf(e, sub[1]), PointOf(e, sub[2])>>>> \o Segments(e, Tail(sub))
RECURSIVE AllSegments(_, _)
AllSegments(e, l) == IF l = <<>> THEN <<>> ELSE Segments(e, Head(l)) \o AllSegments(e, Tail(l))

RowVerdict(h, e, cell, segs, r) ==
    LET ids == e.val.ids
        o == [h |-> InSpinW(h), ids |-> ids]
        b == Rcp2Pi(cell)
        rel == VNum(r.rel)
        abs == VNum(r.abs)
        per == e.val.nrows \div Len(segs)
        s == ((r.i - 1) \div per) + 1
        t == RDiv(ToString((r.i - 1) % per), ToString(per - 1))
        at(k, x) == VAdd(segs[k][1], VScale(VSub(segs[k][2], segs[k][1]), x))
        len(k) == VNorm(VMat(VSub(segs[k][2], segs[k][1]), b))
        coord == RAdd(RSumSeq([k \in 1..(s - 1) |-> len(k)]), RMul(t, len(s)))
        H == SpinWave(o.h, ids, NumU(r.val.u), NumV(r.val.v), abs)
        p == MinPivot(H)
        m == MinPivot(CNeg(H))
        ov == OmegaVerdict(o, [val |-> r.val, kp |-> r.abs])
    IN CASE ~VWithin(abs, VMat(rel, b), "1e-6") -> "dispersion: relative and absolute wave vector"
         [] segs # <<>> /\ ~VWithin(rel, at(s, t), "1e-7") -> "dispersion: point of the path"
         [] segs # <<>> /\ ~Within(RNum(r.c), coord, "1e-6") -> "dispersion: coordinate of the point"
         [] Len(r.w) # Len(ids) -> "dispersion: number of branches"
         [] ~Hermitian(H, "1e-9") -> "ok"
         [] ov # "ok" -> "dispersion: " \o ov
         [] (RLt("1e-4", p) \/ RLt("1e-4", m)) /\ \E k \in DOMAIN ids : ~RIsNum(r.w[k]) \/ ~RClose(r.w[k], RNum(r.val.E[k]), "2e-6")
              -> "dispersion: frequencies"
         [] RLt(p, "-1e-5") /\ RLt(m, "-1e-5") /\ \E k \in DOMAIN ids : RIsNum(r.w[k]) /\ RNum(r.w[k]) # "0" -> "dispersion: frequencies of unstable state"
         [] OTHER -> "ok"

DispVerdict(h, e) ==
    LET segs == TLCEval(AllSegments(e, e.kp))
        cell == IF e.val.S = <<>> THEN h.cell ELSE TLCEval(NewCell(h.cell, MNum(e.val.S)))
        bad == {k \in DOMAIN e.val.rows : RowVerdict(h, e, cell, segs, e.val.rows[k]) # "ok"}
    IN CASE Ran(e.val.new) # DispFiles(e) -> "dispersion: files"
         [] ~e.st -> "ok"
         [] Ran(e.val.ids) # Magnetic(h) -> "dispersion: magnetic atoms"
         [] e.val.ncols # 7 + Len(e.val.ids) -> "dispersion: columns"
         [] segs # <<>> /\ (e.val.nrows = 0 \/ e.val.nrows % Len(segs) # 0) -> "dispersion: number of points"
         [] e.val.nrows = 0 \/ ~e.val.grows -> "dispersion: coordinates"
         [] bad # {} -> RowVerdict(h, e, cell, segs, e.val.rows[CHOOSE k \in bad : TRUE])
         [] OTHER -> "ok"

DispCmd(fs, e) ==
    LET r == Input(fs, e)
    IN IF r.res # "ok" THEN Res(fs, <<>>, r.res, "ok")
       ELSE IF e.lib = "error" THEN Res(fs, <<>>, "error", "ok")     \* no standard cell
       ELSE Res(fs, <<>>, "ok", IF e.res = "ok" THEN DispVerdict(r.new[1], e) ELSE "ok")

-----------------------------------------------------------------------------
(* Minimisation.  e.val: [new, ids, blocks, summary]                          *)
MinKinds(e) == IF e.gst = <<>> \/ "all" \in Ran(e.gst) THEN <<"ferro", "antiferro", "spiral">> ELSE e.gst
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
Times(k, n) == [i \in 1..n |-> k]
\* kinds of the blocks and of the energies of the summary
MinBlocks(e) == LET l == MinKinds(e) IN Flat([i \in DOMAIN l |-> IF l[i] = "antiferro" THEN Times("antiferro", 26) ELSE <<l[i]>>])
MinFiles(e) ==
    {e.os \o "-results"} \cup UNION {IF k = "antiferro" THEN {e.os \o "-antiferro-history-" \o ToString(i) : i \in 1..26}
                                     ELSE {e.os \o "-" \o k \o "-history"} : k \in Ran(MinKinds(e))}
AllN == {<<x, y, z>> : x \in {-1, 0, 1}, y \in {-1, 0, 1}, z \in {-1, 0, 1}} \ {<<0, 0, 0>>}

BlockVerdict(h, o, e, k) ==
    LET b == e.val.blocks[k]
        kind == MinBlocks(e)[k]
        scale == OptScale(o)
        x == [e |-> TLCEval([i \in DOMAIN b.spins |-> VNum(b.spins[i])]),
              n |-> IF kind = "ferro" THEN <<>> ELSE VNum(b.n), q |-> IF kind = "ferro" THEN <<>> ELSE VNum(b.q)]
        E == RNum(e.val.energies[k])
        near(a, c, t) == RLe(RAbs(RSub(a, c)), RMul(t, scale))
    IN CASE b.kind # kind -> "minimisation: kind of state"
         [] Len(b.spins) # Len(o.ids) -> "minimisation: number of spins"
         [] \E i \in DOMAIN b.spins : b.names[i] # h.A[o.ids[i]].name -> "minimisation: names of atoms"
         [] \E i \in DOMAIN b.spins : ~VWithin(VNum(b.pos[i]), h.A[o.ids[i]].pos, Eight) -> "minimisation: positions"
         [] ~UnitLength(kind, x, "1e-6") -> "minimisation: length of vectors"
         [] kind = "antiferro" /\ ~VWithin(x.q, VMat(VScale(<<ToString(b.N[1]), ToString(b.N[2]), ToString(b.N[3])>>, "1/2"), Rcp2Pi(h.cell)), "1e-7") -> "minimisation: spiral vector of antiferro"
         [] ~near(E, OptEnergy(o, kind, b.N, x), "5e-7") -> "minimisation: energy in the summary"
         [] ~near(E, RNum(b.last), "1e-7") -> "minimisation: energy in the history"
         [] OTHER -> "ok"

MinVerdict(h, e) ==
    LET o == [EnergyOf(h, e.val.ids) EXCEPT !.H = IF e.mf = <<>> THEN <<>> ELSE VNum(e.mf)]
        bs == MinBlocks(e)
        bad == {k \in DOMAIN bs : BlockVerdict(h, o, e, k) # "ok"}
        anti == {k \in DOMAIN bs : bs[k] = "antiferro"}
    IN CASE Ran(e.val.new) # MinFiles(e) -> "minimisation: files"
         [] Ran(e.val.ids) # Magnetic(h) -> "minimisation: magnetic atoms"
         [] Len(e.val.blocks) # Len(bs) -> "minimisation: number of states"
         [] Len(e.val.energies) # Len(bs) -> "minimisation: number of energies"
         [] e.val.labels # [i \in DOMAIN MinKinds(e) |-> MinKinds(e)[i]] -> "minimisation: summary"
         [] anti # {} /\ {e.val.blocks[k].N : k \in anti} # AllN -> "minimisation: vectors of antiferro"
         [] bad # {} -> BlockVerdict(h, o, e, CHOOSE k \in bad : \A j \in bad : k <= j)
         [] OTHER -> "ok"

MinCmd(fs, e) ==
    LET r == Input(fs, e)
    IN CASE r.res # "ok" -> Res(fs, <<>>, r.res, "ok")
         [] ~EnergyReady(r.new[1]) -> Res(fs, <<>>, "NotationError", "ok")
         [] OTHER -> Res(fs, <<>>, "ok", IF e.res = "ok" THEN MinVerdict(r.new[1], e) ELSE "ok")

CommandStep(heap, fs, e) == CASE e.op = "dispcmd" -> DispCmd(fs, e)
                              [] e.op = "mincmd" -> MinCmd(fs, e)
                              [] OTHER -> StoreStep(heap, fs, e)
=============================================================================
