------------------------------- MODULE Store -------------------------------
(* Files in which Hamiltonians are stored: text model files and hdf5 files.

   fs maps names of files to contents
     [k |-> "txt", sha, h]          h: Hamiltonian the text describes
     [k |-> "h5", g, dirs, user]    g: stored Hamiltonians by group, dirs: all
                                    existing groups, user: groups with other data
     [k |-> "tb", sha, h]           a result of TB2J
   Events: dumpt, loadt, dumph, loadh, userg (data that are not of magnopy),
   puttb (a result of TB2J appears), loadtb, conv (the command that converts
   results of TB2J), loadany (the loader of every format), vampire (export).
   Loading adds a Hamiltonian at the end of the heap.                        *)
EXTENDS HamStep, TxtFile, Tb2j, Vampire

StoreOps == {"dumpt", "loadt", "dumph", "loadh", "userg", "puttb", "loadtb", "conv", "loadany", "vampire"}

-----------------------------------------------------------------------------
(* What is stored of a Hamiltonian                                           *)
\* atoms are numbered in their order
NewId(h, a) == LET k == CHOOSE j \in DOMAIN h.atoms : h.atoms[j] = a IN h.A[a].name \o "__" \o ToString(k)
Stored(h) ==
    LET ids == TLCEval([k \in DOMAIN h.atoms |-> NewId(h, h.atoms[k])])
        old(x) == h.atoms[CHOOSE k \in DOMAIN ids : ids[k] = x]
        A == [x \in Ran(ids) |-> LET k == CHOOSE j \in DOMAIN ids : ids[j] = x
                                 IN [h.A[h.atoms[k]] EXCEPT !.idx = k, !.rank = k]]
        ob(b) == <<old(b[1]), old(b[2]), b[3]>>
        ex == TLCEval([b \in {<<NewId(h, c[1]), NewId(h, c[2]), c[3]>> : c \in Bonds(h)} |-> h.ex[ob(b)]])
        on == TLCEval([a \in {NewId(h, c) : c \in Sites(h)} |-> h.on[old(a)]])
        some == Bonds(h) # {} \/ Sites(h) # {}
    IN [h EXCEPT !.A = A, !.atoms = ids, !.ex = ex, !.on = on,
                 !.sn = IF some THEN @ ELSE Undef,
                 !.dc = IF Bonds(h) # {} THEN @ ELSE Undef, !.ef = IF Bonds(h) # {} THEN @ ELSE Undef,
                 !.of = IF Sites(h) # {} THEN @ ELSE Undef]
\* text: only symmetric part of the on-site parameters, charge is always written,
\* parts of exchange parameters that are asked for
PartsOf(J, o) == IF o.matrix THEN J
                 ELSE MAdd(MAdd(IF o.iso THEN MScale(MOne, Iso(J)) ELSE MZero, IF o.dmi THEN MAsym(J) ELSE MZero),
                           IF o.symm THEN Aniso(J) ELSE MZero)
InText(h, o) ==
    LET s == Stored(h)
    IN [s EXCEPT !.ex = TLCEval([b \in DOMAIN @ |-> PartsOf(@[b], o)]), !.on = TLCEval([a \in DOMAIN @ |-> MSym(@[a])]),
                 !.A = TLCEval([a \in DOMAIN @ |-> [@[a] EXCEPT !.q = IF @ = Undef THEN "0" ELSE @]])]

\* values are written with a fixed number of digits
Within(a, b, t) == RLe(RAbs(RSub(a, b)), t)
VWithin(u, v, t) == Within(u[1], v[1], t) /\ Within(u[2], v[2], t) /\ Within(u[3], v[3], t)
MWithin(A, B, t) == VWithin(A[1], B[1], t) /\ VWithin(A[2], B[2], t) /\ VWithin(A[3], B[3], t)
Eight == "0.0000000051"
Four == "0.000051"
\* the Hamiltonian r that was written is h
WrittenVerdict(r, h, o) ==
    LET tj == IF o.matrix /\ ~o.iso /\ ~o.dmi /\ ~o.symm THEN Four ELSE "0.00016"
        ts == IF o.angles THEN "0.00013" ELSE Four
    IN CASE r.atoms # h.atoms -> "atoms"
         [] ~MWithin(r.cell, h.cell, Eight) -> "cell"
         [] \E k \in DOMAIN h.atoms : ~VWithin(r.A[r.atoms[k]].pos, h.A[h.atoms[k]].pos, Eight) -> "positions"
         [] \E k \in DOMAIN h.atoms : ~VWithin(r.A[r.atoms[k]].spinv, h.A[h.atoms[k]].spinv, ts) -> "spins"
         [] \E k \in DOMAIN h.atoms : ~Within(r.A[r.atoms[k]].g, h.A[h.atoms[k]].g, Four) -> "g factors"
         [] \E k \in DOMAIN h.atoms : ~Within(r.A[r.atoms[k]].q, h.A[h.atoms[k]].q, Four) -> "charges"
         [] r.sn # h.sn \/ r.dc # h.dc \/ ~NumClose(r.ef, h.ef) \/ ~NumClose(r.of, h.of) -> "notation"
         [] Bonds(r) # Bonds(h) -> "bonds"
         [] \E b \in Bonds(h) : ~MWithin(r.ex[b], h.ex[b], tj) -> "exchange"
         [] Sites(r) # Sites(h) -> "on-site atoms"
         [] \E a \in Sites(h) : ~MWithin(r.on[a], h.on[a], Four) -> "on-site"
         [] Len(r.q) # Len(h.q) \/ Len(r.n) # Len(h.n) -> "spiral vector or cone axis"
         [] h.q # <<>> /\ ~VWithin(r.q, h.q, Eight) -> "spiral vector"
         [] h.n # <<>> /\ ~VWithin(r.n, h.n, "0.00000002") -> "cone axis"
         [] OTHER -> "ok"

-----------------------------------------------------------------------------
(* Events.  Result: [fs, new: sequence of loaded Hamiltonians, res, v]        *)
Under(g, p) == g = p \/ SStarts(g, p \o "/")
NoFile == [k |-> "none"]
File(fs, f) == IF f \in DOMAIN fs THEN fs[f] ELSE NoFile
NewH5 == [k |-> "h5", g |-> <<>>, dirs |-> {}, user |-> {}]
H5(fs, f) == IF f \in DOMAIN fs THEN fs[f] ELSE NewH5
PutFile(fs, f, c) == [x \in DOMAIN fs \cup {f} |-> IF x = f THEN c ELSE fs[x]]
\* group p and groups it is in, given as a list in the event
WithGroup(c, p, above) == [c EXCEPT !.dirs = @ \cup {p} \cup Ran(above)]
Cleared(c, p) == [c EXCEPT !.dirs = {d \in @ : ~Under(d, p)}, !.user = {d \in @ : ~Under(d, p)},
                           !.g = [d \in {x \in DOMAIN @ : ~Under(x, p)} |-> @[d]]]
Res(fs, new, res, v) == [fs |-> fs, new |-> new, res |-> res, v |-> v]

DumpT(h, fs, e) ==
    IF ~Storable(h) THEN Res(fs, <<>>, "NotationError", "ok")
    ELSE LET want == TLCEval(InText(h, e.opts))
         IN IF "lines" \notin DOMAIN e THEN Res(PutFile(fs, e.f, [k |-> "txt", sha |-> "none", h |-> want]), <<>>, "ok", "ok")
            ELSE IF Verdict(e.lines) # "accept" THEN Res(fs, <<>>, "ok", "written file does not follow the format: " \o Problem(e.lines))
            ELSE LET r == TLCEval(Read(e.lines))
                     v == WrittenVerdict(r, want, e.opts)
                 IN Res(PutFile(fs, e.f, [k |-> "txt", sha |-> e.sha, h |-> r]), <<>>, "ok",
                        IF v = "ok" THEN v ELSE "written file: " \o v)

LoadT(fs, e) ==
    IF File(fs, e.f).k # "txt" THEN Res(fs, <<>>, "error", "ok")
    ELSE Res(fs, <<fs[e.f].h>>, "ok", "ok")

DumpH(h, fs, e) ==
    LET c == H5(fs, e.f)
    IN CASE ~Storable(h) -> Res(fs, <<>>, "NotationError", "ok")
         [] c.k # "h5" -> Res(fs, <<>>, "error", "ok")
         [] e.g \in c.dirs /\ ~e.ow -> Res(fs, <<>>, "FileExistsError", "ok")
         [] OTHER ->
              LET d == WithGroup(Cleared(c, e.g), e.g, e.above)
                  s == TLCEval(Stored(h))
              IN Res(PutFile(fs, e.f, [d EXCEPT !.g = [x \in DOMAIN @ \cup {e.g} |-> IF x = e.g THEN s ELSE @[x]]]), <<>>, "ok", "ok")

LoadH(fs, e) ==
    LET c == File(fs, e.f)
        hams == DOMAIN c.g
    IN CASE c.k # "h5" -> Res(fs, <<>>, "error", "ok")
         [] e.g = "" -> IF Cardinality(hams) = 1 THEN Res(fs, <<c.g[CHOOSE x \in hams : TRUE]>>, "ok", "ok")
                        ELSE Res(fs, <<>>, "RuntimeError", "ok")
         [] e.g \in hams -> Res(fs, <<c.g[e.g]>>, "ok", "ok")
         [] e.g \in c.dirs -> Res(fs, <<>>, "error", "ok")
         [] OTHER -> Res(fs, <<>>, "KeyError", "ok")

\* the user stores something else
UserG(fs, e) ==
    LET c == H5(fs, e.f)
    IN IF c.k # "h5" \/ e.g \in c.dirs THEN Res(fs, <<>>, "error", "ok")
       ELSE Res(PutFile(fs, e.f, [WithGroup(c, e.g, e.above) EXCEPT !.user = @ \cup {e.g}]), <<>>, "ok", "ok")

PutTb(fs, e) == Res(PutFile(fs, e.f, [k |-> "tb", sha |-> e.sha, h |-> TLCEval(TbRead(e.lines))]), <<>>, "ok", "ok")
LoadTb(fs, e) ==
    IF File(fs, e.f).k # "tb" THEN Res(fs, <<>>, "error", "ok")
    ELSE Res(fs, <<fs[e.f].h>>, "ok", "ok")

\* fmt: "" if it is not given; the name of a binary file always ends with .hdf5.
\* Text is written in the default way, binary files in the default group.
DefaultText == [matrix |-> TRUE, iso |-> FALSE, dmi |-> FALSE, symm |-> FALSE, dist |-> FALSE, angles |-> FALSE]
ConvFormat(e) == IF e.fmt # "" THEN SLower(e.fmt) ELSE IF SEnds(e.t, ".hdf5") THEN "hdf5" ELSE "txt"
ConvTarget(e) == IF ConvFormat(e) = "hdf5" THEN SCut(SCut(e.t, ".txt"), ".hdf5") \o ".hdf5" ELSE e.t
Conv(fs, e) ==
    CASE File(fs, e.f).k # "tb" -> Res(fs, <<>>, "error", "ok")
      [] ConvFormat(e) = "txt" -> DumpT(fs[e.f].h, fs, [e EXCEPT !.f = e.t] @@ [opts |-> DefaultText])
      [] ConvFormat(e) = "hdf5" -> DumpH(fs[e.f].h, fs, [e EXCEPT !.f = ConvTarget(e)] @@ [g |-> "spinham", ow |-> FALSE, above |-> <<>>])
      [] OTHER -> Res(fs, <<>>, "error", "ok")

\* fmt: "" if it is not given
AnyFormat(e) == IF e.fmt # "" THEN SLower(e.fmt)
                ELSE IF SEnds(e.f, ".hdf5") THEN "hdf5" ELSE IF SEnds(e.f, "exchange.out") THEN "tb2j" ELSE "txt"
LoadAny(fs, e) == CASE AnyFormat(e) = "txt" -> LoadT(fs, e)
                    [] AnyFormat(e) = "hdf5" -> LoadH(fs, e)
                    [] AnyFormat(e) = "tb2j" -> LoadTb(fs, e)
                    [] OTHER -> Res(fs, <<>>, "ValueError", "ok")

StoreStep(heap, fs, e) ==
    CASE e.op = "dumpt" -> DumpT(heap[e.o], fs, e)
      [] e.op = "loadt" -> LoadT(fs, e)
      [] e.op = "dumph" -> DumpH(heap[e.o], fs, e)
      [] e.op = "loadh" -> LoadH(fs, e)
      [] e.op = "userg" -> UserG(fs, e)
      [] e.op = "puttb" -> PutTb(fs, e)
      [] e.op = "loadtb" -> LoadTb(fs, e)
      [] e.op = "conv" -> Conv(fs, e)
      [] e.op = "vampire" -> LET r == VampireOutcome(heap[e.o], e) IN Res(fs, <<>>, r.res, r.v)
      [] OTHER -> LoadAny(fs, e)

\* observed files: [f, k, sha] or [f, k, hams, user]
FilesVerdict(fs, l) ==
    CASE {l[k].f : k \in DOMAIN l} # DOMAIN fs -> "files"
      [] \E k \in DOMAIN l : (l[k].k = "h5") # (fs[l[k].f].k = "h5") -> "kind of file"
      [] \E k \in DOMAIN l : l[k].k = "txt" /\ l[k].sha # fs[l[k].f].sha -> "another file is modified"
      [] \E k \in DOMAIN l : l[k].k = "h5" /\ Ran(l[k].hams) # DOMAIN fs[l[k].f].g -> "groups of the file"
      [] \E k \in DOMAIN l : l[k].k = "h5" /\ Ran(l[k].user) # fs[l[k].f].user -> "other data in the file"
      [] OTHER -> "ok"
=============================================================================
