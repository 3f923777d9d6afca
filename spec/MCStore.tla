------------------------------ MODULE MCStore ------------------------------
(* All short sequences of storing and loading: two Hamiltonians, groups of one
   hdf5 file (nested ones included), a text file, changes of the Hamiltonians
   and data of the user.  Every complete sequence is exported, executed in the
   real code and judged by StoreTrace.  `last` remembers, independently of fs,
   which Hamiltonian was put where.                                          *)
EXTENDS Store

CONSTANTS Depth, Export, Kinds
VARIABLES heap, fs, hist, last, ok
vars == <<heap, fs, hist, last, ok>>

A1 == "A__3"
B2 == "B__1"
X == <<1, 0, 0>>
AT == [x \in {A1, B2} |->
         IF x = A1 THEN [name |-> "A", idx |-> 3, rank |-> 2, spin |-> "2", spinv |-> <<"0", "0", "2">>, pos |-> <<"0", "0", "0">>, g |-> "2", q |-> Undef]
         ELSE [name |-> "B", idx |-> 1, rank |-> 1, spin |-> "5/2", spinv |-> <<"0", "-3/2", "2">>, pos |-> <<"1/4", "0", "1/2">>, g |-> "2", q |-> "-1"]]
Cell == << <<"4", "0", "0">>, <<"0", "3", "0">>, <<"0", "0", "5">> >>
M1 == << <<"1", "2", "0">>, <<"0", "1", "-1">>, <<"3", "0", "1">> >>
M2 == << <<"-2", "1", "0">>, <<"-1", "0", "1/2">>, <<"0", "0", "2">> >>
Nam(a) == [k |-> "name", id |-> a]
Build == << [op |-> "setname", o |-> 1, v |-> "tb2j", spelling |-> "TB2J"],
            [op |-> "addx", o |-> 1, a |-> Nam("A"), b |-> Nam("B"), R |-> R0, J |-> [matrix |-> M1], via |-> "method"],
            [op |-> "addo", o |-> 1, a |-> Nam("A"), J |-> [matrix |-> M2], via |-> "method"],
            [op |-> "copy", o |-> 1],
            [op |-> "addx", o |-> 2, a |-> Nam("B"), b |-> Nam("B"), R |-> X, J |-> [iso |-> "1/2"], via |-> "method"],
            [op |-> "setq", o |-> 2, v |-> <<"1/4", "0", "0">>] >>
RECURSIVE Run(_, _)
Run(hp, l) == IF l = <<>> THEN hp ELSE Run(Step(hp, <<>>, Head(l)).heap, Tail(l))
Blank(e) == [res |-> "none", val |-> "none", obs |-> <<>>, xobs |-> <<>>, params |-> <<>>] @@ e

O == [matrix |-> TRUE, iso |-> FALSE, dmi |-> FALSE, symm |-> FALSE, dist |-> FALSE, angles |-> FALSE]
Groups == {"a", "a/b", "c"}
Above(g) == IF g = "a/b" THEN <<"a">> ELSE <<>>
H == "s.hdf5"
T == "m.txt"
Events ==
    (IF "h5" \in Kinds THEN
        {[op |-> "dumph", o |-> o, f |-> H, g |-> g, ow |-> w, via |-> "all", above |-> Above(g)] : o \in {1, 2}, g \in Groups, w \in BOOLEAN}
        \cup {[op |-> "loadh", o |-> 1, f |-> H, g |-> g, via |-> "h5", above |-> Above(g)] : g \in Groups \cup {""}}
        \cup {[op |-> "userg", o |-> 1, f |-> H, g |-> "c", above |-> <<>>]} ELSE {})
    \cup (IF "txt" \in Kinds THEN
        {[op |-> "dumpt", o |-> o, f |-> T, opts |-> w, via |-> "file"] : o \in DOMAIN heap,
                                                                          w \in {O, [O EXCEPT !.matrix = FALSE, !.dmi = TRUE, !.symm = TRUE]}}
        \cup {[op |-> "loadt", o |-> 1, f |-> T, via |-> "guess"]} ELSE {})
    \cup {[op |-> "setname", o |-> Len(heap), v |-> "spinw", spelling |-> "SpinW"],
          [op |-> "delo", o |-> 1, a |-> Nam("A"), strict |-> TRUE, via |-> "method"],
          [op |-> "addx", o |-> Len(heap), a |-> Nam("B"), b |-> Nam("A"), R |-> X, J |-> [matrix |-> M2], via |-> "method"]}

Init == heap = Run(<<EmptyHam(AT, Cell, <<A1, B2>>)>>, [k \in DOMAIN Build |-> Blank(Build[k])])
        /\ fs = <<>> /\ hist = <<>> /\ last = <<>> /\ ok = TRUE

\* what is the same about a Hamiltonian before and after storing: names, numbers of
\* terms, values by names
Named3(h, b) == <<h.A[b[1]].name, h.A[b[2]].name, b[3]>>
SameTerms(h, r, J(_)) ==
    /\ [k \in DOMAIN h.atoms |-> h.A[h.atoms[k]].name] = [k \in DOMAIN r.atoms |-> r.A[r.atoms[k]].name]
    /\ {<<Named3(h, b), J(h.ex[b])>> : b \in Bonds(h)} = {<<Named3(r, b), r.ex[b]>> : b \in Bonds(r)}
    /\ {h.A[a].name : a \in Sites(h)} = {r.A[a].name : a \in Sites(r)}
    /\ h.cell = r.cell /\ h.q = r.q /\ h.n = r.n
    /\ Bonds(h) # {} => h.dc = r.dc /\ h.ef = r.ef
    /\ Sites(h) # {} => h.of = r.of

JA == SetToSeq({[id |-> x, name |-> AT[x].name, idx |-> AT[x].idx, rank |-> AT[x].rank, g |-> AT[x].g,
                 spin |-> AT[x].spin, spinv |-> AT[x].spinv, pos |-> AT[x].pos]
                @@ (IF AT[x].q = Undef THEN <<>> ELSE [q |-> AT[x].q]) : x \in DOMAIN AT})
ASSUME Export => PrintT("HD|" \o ToJson([A |-> JA, cell |-> Cell, atoms |-> <<A1, B2>>, build |-> Build]))

Next == /\ Len(hist) < Depth
        /\ \E e \in Events :
             LET st == e.op \in StoreOps
                 s == IF st THEN StoreStep(heap, fs, Blank(e)) ELSE Step(heap, <<>>, Blank(e))
                 good == s.res = "ok"
                 put == good /\ e.op \in {"dumph", "dumpt"}
                 key(x) == IF x.op \in {"dumph", "loadh"} THEN <<x.f, x.g>> ELSE <<x.f, "">>
                 lost(k) == put /\ e.op = "dumph" /\ k[1] = e.f /\ Under(k[2], e.g)
             IN /\ heap' = IF st THEN heap \o s.new ELSE s.heap
                /\ fs' = IF st THEN s.fs ELSE fs
                /\ hist' = Append(hist, e)
                /\ last' = IF put THEN [k \in {x \in DOMAIN last : ~lost(x)} \cup {key(e)} |->
                                          IF k = key(e) THEN <<heap[e.o], e>> ELSE last[k]]
                           ELSE last
                \* a load gives what was put last, a failed event changes nothing, files do
                \* not change when Hamiltonians are edited
                /\ ok' = /\ (good /\ e.op = "loadt") =>
                              SameTerms(last[key(e)][1], s.new[1], LAMBDA J : PartsOf(J, last[key(e)][2].opts))
                         /\ (good /\ e.op = "loadh" /\ e.g # "") => SameTerms(last[key(e)][1], s.new[1], LAMBDA J : J)
                         /\ (good /\ e.op = "loadh" /\ e.g = "") => \E k \in DOMAIN last : k[1] = H /\ SameTerms(last[k][1], s.new[1], LAMBDA J : J)
                         /\ (st /\ ~good) => s.fs = fs /\ s.new = <<>>
                         /\ e.op = "dumph" => (good <=> (e.ow \/ e.g \notin H5(fs, H).dirs))
                         /\ (e.op = "loadh" /\ e.g # "") => (good <=> key(e) \in DOMAIN last)
                /\ (Export /\ Len(hist') = Depth) => PrintT("TR|" \o ToJson(hist'))

Faithful == ok
\* storing what was loaded does not change it any more
Idempotent == \A o \in DOMAIN heap : Storable(heap[o]) =>
    /\ Stored(Stored(heap[o])) = Stored(heap[o])
    /\ InText(InText(heap[o], O), O) = InText(heap[o], O)
Groups_ == H \in DOMAIN fs => /\ DOMAIN fs[H].g \cup fs[H].user \subseteq fs[H].dirs
                              /\ DOMAIN fs[H].g \cap fs[H].user = {}
                              /\ {k[2] : k \in {x \in DOMAIN last : x[1] = H}} = DOMAIN fs[H].g
=============================================================================
