------------------------------- MODULE MCHeap -------------------------------
(* All short sequences of events on a Hamiltonian and the objects derived from
   it: an object is derived (copy, filtered, crystal, energy, dispersion), then
   events are applied to the original or to derived objects.  Every complete
   sequence is exported; the harness executes it in the real code, observes all
   objects after every event, and HamTrace judges the recording.              *)
EXTENDS HamStep

CONSTANTS Depth, Export
VARIABLES heap, aux, hist, frame
vars == <<heap, aux, hist, frame>>

A1 == "A__1"
B2 == "B__2"
X == <<1, 0, 0>>
AT == [x \in {A1, B2} |->
         IF x = A1 THEN [name |-> "A", idx |-> 1, rank |-> 1, spin |-> "2", spinv |-> <<"0", "0", "2">>, pos |-> <<"0", "0", "0">>, g |-> "2", q |-> Undef]
         ELSE [name |-> "B", idx |-> 2, rank |-> 2, spin |-> "5/2", spinv |-> <<"0", "-3/2", "2">>, pos |-> <<"1/4", "0", "1/2">>, g |-> "2", q |-> Undef]]
Cell == << <<"4", "0", "0">>, <<"0", "3", "0">>, <<"0", "0", "5">> >>
M1 == << <<"1", "2", "0">>, <<"0", "1", "-1">>, <<"3", "0", "1">> >>
M2 == << <<"-2", "1", "0">>, <<"-1", "0", "1/2">>, <<"0", "0", "2">> >>
Ful(a) == [k |-> "full", id |-> a]

\* events that build the first object
Build == << [op |-> "addx", o |-> 1, a |-> Ful(A1), b |-> Ful(B2), R |-> R0, J |-> [matrix |-> M1], pid |-> 1, via |-> "method"],
            [op |-> "addx", o |-> 1, a |-> Ful(A1), b |-> Ful(A1), R |-> X, J |-> [matrix |-> M1], pid |-> 1, via |-> "item"],
            [op |-> "addo", o |-> 1, a |-> Ful(A1), J |-> [matrix |-> M2], pid |-> 2, via |-> "method"],
            [op |-> "setname", o |-> 1, v |-> "tb2j", spelling |-> "TB2J"] >>
RECURSIVE Run(_, _, _)
Run(hp, ax, l) == IF l = <<>> THEN <<hp, ax>>
                  ELSE LET s == Step(hp, ax, Head(l)) IN Run(s.heap, s.aux, Tail(l))

Derive(o) == {[op |-> "copy", o |-> o], [op |-> "filtered", o |-> o, lo |-> "0", hi |-> "100"],
              [op |-> "crystal", o |-> o],
              [op |-> "energy", o |-> o, ids |-> <<A1, B2>>], [op |-> "disp", o |-> o, ids |-> <<A1, B2>>]}
Change(o) == {[op |-> "addx", o |-> o, a |-> Ful(A1), b |-> Ful(B2), R |-> R0, J |-> [iso |-> "7"], via |-> "method"],
              [op |-> "addx", o |-> o, a |-> Ful(B2), b |-> Ful(B2), R |-> X, J |-> [matrix |-> M1], pid |-> 1, via |-> "item"],
              [op |-> "delx", o |-> o, a |-> Ful(A1), b |-> Ful(A1), R |-> X, strict |-> TRUE, via |-> "item"],
              [op |-> "delo", o |-> o, a |-> Ful(A1), strict |-> TRUE, via |-> "method"],
              [op |-> "addo", o |-> o, a |-> Ful(B2), J |-> [matrix |-> M2], pid |-> 2, via |-> "item"],
              [op |-> "setdc", o |-> o, v |-> "false"], [op |-> "setsn", o |-> o, v |-> "false"],
              [op |-> "setef", o |-> o, v |-> "2"], [op |-> "setof", o |-> o, v |-> "-1/2"],
              [op |-> "setname", o |-> o, v |-> "spinw", spelling |-> "SpinW"],
              [op |-> "dela", o |-> o, a |-> Ful(B2)],
              [op |-> "filter", o |-> o, lo |-> "undef", hi |-> "3"],
              [op |-> "setspin", o |-> o, a |-> Ful(A1), v |-> <<"0", "3", "0">>],
              [op |-> "setq", o |-> o, v |-> <<"1", "0", "1/2">>], [op |-> "setn", o |-> o, v |-> <<"0", "3", "4">>]}
Dirs2 == << <<"0", "0", "1">>, <<"3/5", "0", "4/5">> >>
Use(x) == CASE aux[x].k = "energy" -> {[op |-> "eferro", o |-> 1, x |-> x, e |-> Dirs2],
                                       [op |-> "efield", o |-> 1, x |-> x, v |-> <<"1", "0", "0">>],
                                       [op |-> "espins", o |-> 1, x |-> x, v |-> <<"1", "3">>]}
            [] aux[x].k = "disp" -> {[op |-> "dh", o |-> 1, x |-> x, kp |-> <<"1/2", "1/4", "-1">>]}
            [] OTHER -> {[op |-> "crymut", o |-> 1, x |-> x, a |-> A1, v |-> v, w |-> <<"0", "1/2", "0">>] : v \in {"remove", "spin", "move"}}

\* an observation that the model does not need (values are judged by HamTrace)
Blank(e) == [res |-> "none", val |-> "none", obs |-> <<>>, xobs |-> <<>>, params |-> <<>>] @@ e

Legal(e) == ~(e.op = "crymut" /\ (A1 \notin Ran(aux[e.x].atoms)))
            /\ ~(e.op = "setspin" /\ A1 \notin AtomSet(heap[e.o]))
            /\ ~(e.op \in MakeOps /\ e.op # "crystal" /\ Magnetic(heap[e.o]) # {A1, B2})

Init == LET r == Run(<<EmptyHam(AT, Cell, <<A1, B2>>)>>, <<>>, [k \in DOMAIN Build |-> Blank(Build[k])])
        IN heap = r[1] /\ aux = r[2] /\ hist = <<>> /\ frame = TRUE

Events == IF hist = <<>> THEN Derive(1)
          ELSE UNION {Change(o) : o \in DOMAIN heap} \cup UNION {Use(x) : x \in DOMAIN aux}
               \cup (IF Len(hist) = 1 THEN Derive(1) ELSE {})

JA == SetToSeq({[id |-> x, name |-> AT[x].name, idx |-> AT[x].idx, rank |-> AT[x].rank, g |-> AT[x].g,
                 spin |-> AT[x].spin, spinv |-> AT[x].spinv, pos |-> AT[x].pos] : x \in DOMAIN AT})
ASSUME Export => PrintT("HD|" \o ToJson([A |-> JA, cell |-> Cell, atoms |-> <<A1, B2>>, build |-> Build]))

Next == /\ Len(hist) < Depth
        /\ \E e \in Events :
             /\ Legal(e)
             /\ LET s == Step(heap, aux, Blank(e))
                IN /\ heap' = s.heap /\ aux' = s.aux
                   /\ hist' = Append(hist, e)
                   /\ frame' = /\ \A o \in DOMAIN heap : (e.op \in AuxOps \/ o # e.o) => s.heap[o] = heap[o]
                               /\ \A x \in DOMAIN aux : (e.op \notin AuxOps \/ x # e.x) => s.aux[x] = aux[x]
                               /\ e.op \in MakeOps \cup {"copy", "filtered"} => s.heap[e.o] = heap[e.o]
             /\ (Export /\ Len(hist') = Depth) => PrintT("TR|" \o ToJson(hist'))

\* C06: an event changes only the object it is applied to
Independent == frame
\* C06: derived objects are snapshots
Snapshot == Len(hist) = 1 =>
    /\ hist[1].op \in {"copy", "filtered"} => heap[2] = heap[1]
    /\ hist[1].op = "crystal" => aux[1].atoms = heap[1].atoms /\ aux[1].A = heap[1].A
=============================================================================
