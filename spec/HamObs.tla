------------------------------ MODULE HamObs ------------------------------
(* Comparison of an expected Hamiltonian with what was observed of a real one. *)
EXTENDS Ham, Json, IOUtils, SequencesExt

TOL == IOEnv.TOL

AtomTable(t) == [x \in {t.A[k].id : k \in DOMAIN t.A} |->
                   LET a == t.A[CHOOSE k \in DOMAIN t.A : t.A[k].id = x]
                   IN [name |-> a.name, idx |-> a.idx, rank |-> a.rank,
                       spin |-> RNum(a.spin), pos |-> VNum(a.pos), spinv |-> VNum(a.spinv),
                       g |-> IF "g" \in DOMAIN a THEN RNum(a.g) ELSE "2",
                       q |-> IF "q" \in DOMAIN a THEN RNum(a.q) ELSE Undef]]

-----------------------------------------------------------------------------
(* Comparison of the expected state h with the observation s                 *)
SetOfKeys(l) == {<<l[k][1], l[k][2], l[k][3]>> : k \in DOMAIN l}
NumClose(o, e) == IF e = Undef \/ o = Undef THEN o = e ELSE RClose(o, e, TOL)

\* observed values of entries of list l with the key b, in any order, are the
\* expected ones
BagMatch(ovs, evs) ==
    CASE Len(evs) = 0 -> Len(ovs) = 0
      [] Len(evs) = 1 -> Len(ovs) = 1 /\ MClose(ovs[1], evs[1], TOL)
      [] OTHER -> /\ Len(ovs) = 2
                  /\ \/ MClose(ovs[1], evs[1], TOL) /\ MClose(ovs[2], evs[2], TOL)
                     \/ MClose(ovs[1], evs[2], TOL) /\ MClose(ovs[2], evs[1], TOL)
WithKey(l, b) == LET s == SelectSeq(l, LAMBDA x : x[1] = b[1] /\ x[2] = b[2] /\ x[3] = b[3])
                 IN [k \in DOMAIN s |-> s[k][4]]

LikeKeys(h) == Bonds(h) \cup {<<a, a, R0>> : a \in Sites(h)}
LikeVals(h, b) == (IF SelfMirror(b) /\ b[1] \in Sites(h) THEN <<OnAsExchange(h, b[1])>> ELSE <<>>)
                  \o (IF b \in Bonds(h) THEN <<h.ex[b]>> ELSE <<>>)

Sorted(h, l) == \A k \in 1..(Len(l) - 1) : h.A[l[k]].idx <= h.A[l[k + 1]].idx

AtomMatch(a, o) == /\ VClose(o.pos, a.pos, TOL) /\ VClose(o.spinv, a.spinv, TOL)
                   /\ RClose(o.g, a.g, TOL) /\ NumClose(o.q, a.q)

StateVerdict(h, s) ==
    CASE s.dc # h.dc -> "double_counting"
      [] s.sn # h.sn -> "spin_normalized"
      [] ~NumClose(s.ef, h.ef) -> "exchange_factor"
      [] ~NumClose(s.of, h.of) -> "on_site_factor"
      [] s.atoms # h.atoms -> "atoms"
      [] ~MClose(s.cell, h.cell, TOL) -> "cell"
      [] \E k \in DOMAIN s.atoms : ~AtomMatch(h.A[s.atoms[k]], s.adata[k]) -> "atom data"
      [] SetOfKeys(s.ex) # Bonds(h) -> "bonds"
      [] Len(s.ex) # Cardinality(Bonds(h)) -> "bond listed twice"
      [] s.nex # Len(s.ex) -> "number of bonds"
      [] \E k \in DOMAIN s.ex : ~MClose(s.ex[k][4], h.ex[<<s.ex[k][1], s.ex[k][2], s.ex[k][3]>>], TOL)
            -> "exchange value"
      [] {s.on[k][1] : k \in DOMAIN s.on} # Sites(h) -> "on-site atoms"
      [] Len(s.on) # Cardinality(Sites(h)) -> "on-site listed twice"
      [] s.non # Len(s.on) -> "number of on-site"
      [] \E k \in DOMAIN s.on : ~MClose(s.on[k][2], h.on[s.on[k][1]], TOL) -> "on-site value"
      [] Ran(s.mag) # Magnetic(h) -> "magnetic atoms"
      [] Len(s.mag) # Cardinality(Magnetic(h)) \/ s.I # Len(s.mag) -> "number of magnetic atoms"
      [] ~Sorted(h, s.mag) -> "order of magnetic atoms"
      [] s.like_res # (IF h.on # <<>> /\ (h.ef = Undef \/ h.of = Undef) THEN "NotationError" ELSE "ok")
            -> "exchange_like outcome"
      [] s.like_res = "ok" /\ (SetOfKeys(s.like) # LikeKeys(h) \/ s.nlike # Len(s.like))
            -> "exchange_like bonds"
      [] s.like_res = "ok" /\ \E b \in LikeKeys(h) : ~BagMatch(WithKey(s.like, b), LikeVals(h, b))
            -> "exchange_like value"
      [] Len(s.q) # Len(h.q) -> "spiral vector"
      [] Len(h.q) = 3 /\ ~VClose(s.q, h.q, TOL) -> "spiral vector"
      [] Len(s.n) # Len(h.n) -> "cone axis"
      [] Len(h.n) = 3 /\ ~VClose(s.n, h.n, TOL) -> "cone axis"
      [] OTHER -> "ok"

ResMatch(o, e) == \/ o = e \/ e = "any"
                  \/ e = "error" /\ o # "ok"
=============================================================================
