------------------------------- MODULE MCHam -------------------------------
(* Exhaustive exploration of Ham over a small universe: every well formed state
   of the universe is an initial state and every operation is applied to it.
   By induction the invariants about one step hold for every sequence that
   stays in the universe.  Every transition is printed (TR|...) so that the
   harness can replay it in the real code.                                   *)
EXTENDS Ham, Json, SequencesExt

CONSTANTS Kind,     \* which operations: "notation", "undef", "container", "mirror", "filter"
          MaxBonds, \* bonds (pairs if double counting) in an initial state
          Export    \* whether to print the transitions

VARIABLES pre, ev, post, phase
vars == <<pre, ev, post, phase>>

AT == [x \in {"A__1", "B__2", "C__3"} |->
         CASE x = "A__1" -> [name |-> "A", idx |-> 1, rank |-> 1, spin |-> "2", pos |-> <<"0", "0", "0">>]
           [] x = "B__2" -> [name |-> "B", idx |-> 2, rank |-> 2, spin |-> "3/2", pos |-> <<"1/4", "0", "0">>]
           [] OTHER      -> [name |-> "C", idx |-> 3, rank |-> 3, spin |-> "1/2", pos |-> <<"0", "1/2", "0">>]]
Cell == << <<"4", "0", "0">>, <<"0", "3", "0">>, <<"0", "0", "12">> >>

X == <<1, 0, 0>>
Y == <<0, 1, -1>>
A1 == "A__1"
B2 == "B__2"
C3 == "C__3"
\* representatives of pairs; the second one is not canonical by its R
Pairs == {<<A1, B2, R0>>, <<A1, A1, X>>, <<B2, A1, RNegV(Y)>>, <<A1, A1, R0>>}
Directed == Pairs \cup {Mirror(b) : b \in Pairs}
M1 == << <<"1", "2", "0">>, <<"0", "1", "-1">>, <<"3", "0", "1">> >>
M2 == << <<"0", "1", "0">>, <<"-1", "0", "0">>, <<"0", "0", "2">> >>
Mats == {M1, M2}

Subsets(S, k) == {T \in SUBSET S : Cardinality(T) <= k}
Base == EmptyHam(AT, Cell, <<A1, B2>>)

\* exchange parts of initial states
ExAny == UNION {[T -> Mats] : T \in Subsets(Directed, MaxBonds)}
ExDouble == \* bonds together with the transposed mirrors
    {[b \in T \cup {Mirror(x) : x \in T} |-> IF b \in T THEN f[b] ELSE MT(f[Mirror(b)])] :
       <<T, f>> \in UNION {{<<T, f>> : f \in [T -> Mats]} : T \in Subsets(Pairs, MaxBonds)}}
    \* a pair that was stored inconsistently before double counting was declared
    \cup {[b \in {p, Mirror(p)} |-> IF b = p THEN M1 ELSE M2] : p \in {<<A1, A1, X>>, <<A1, B2, R0>>}}
Ons == {<<>>, [a \in {A1} |-> M1], [a \in {A1, B2} |-> M2]}

Comp(S) == IF Kind \in {"undef", "fail"} THEN S \cup {Undef} ELSE S
DCs == IF Kind \in {"notation"} THEN {"true", "false"} ELSE {"true", "false", Undef}
SNs == IF Kind \in {"notation", "undef", "fail"} THEN Comp({"true", "false"}) ELSE {"false"}
EFs == IF Kind \in {"notation"} THEN {"1", "-1/2"} ELSE Comp({"1"})
OFs == IF Kind \in {"notation"} THEN {"1", "-2"} ELSE Comp({"1"})

InitHams == {[Base EXCEPT !.dc = d, !.sn = s, !.ef = f, !.of = o, !.ex = x, !.on = w] :
              <<d, s, f, o, x, w>> \in
                 ({"true"} \cap DCs) \X SNs \X EFs \X OFs \X ExDouble \X Ons
                 \cup (DCs \ {"true"}) \X SNs \X EFs \X OFs \X ExAny \X Ons}

-----------------------------------------------------------------------------
Obj(a) == [k |-> "obj", id |-> a]
Nam(s) == [k |-> "name", id |-> s]
Ful(a) == [k |-> "full", id |-> a]
Refs == {Obj(A1), Obj(B2), Obj(C3), Nam("A"), Nam("B"), Nam("C"), Ful(A1)}
Rs == {R0, X, RNegV(X), Y}

Bools == {"true", "false"}
NotationOps ==
    {[op |-> o, v |-> v] : o \in {"setdc", "setsn"}, v \in Bools}
    \cup {[op |-> o, v |-> v] : o \in {"setef", "setof"}, v \in {"1", "-1/2", "3"}}
    \cup {[op |-> "setname", v |-> n, spelling |-> n] : n \in DOMAIN Predefined}
    \cup {[op |-> "settuple", v |-> <<a, b, "-1/2">>] : a \in Bools, b \in Bools}
    \cup {[op |-> "settuple", v |-> <<a, b, "2", "-1/2">>] : a \in Bools, b \in Bools}
ReadOps == {[op |-> "read", v |-> c] : c \in {"dc", "sn", "ef", "of"}} \cup {[op |-> "readall"]}
BadOps == {[op |-> "setname", v |-> "nope", spelling |-> "Nope"],
           [op |-> "settuple", v |-> <<"true", "true">>],
           [op |-> "settuple", v |-> <<"true", "true", "1", "1", "1">>]}
          \cup {[op |-> "setbad", v |-> k] : k \in 0..3}
JM(M) == [matrix |-> M]
AddOps(RR) == {[op |-> "addx", a |-> r, b |-> s, R |-> R, J |-> JM(M2)] : r \in RR, s \in RR, R \in Rs}
DelOps(RR) == {[op |-> "delx", a |-> r, b |-> s, R |-> R, strict |-> t] : r \in RR, s \in RR, R \in Rs, t \in BOOLEAN}
AskOps(RR) == {[op |-> o, a |-> r, b |-> s, R |-> R] : o \in {"hasx", "getx"}, r \in RR, s \in RR, R \in {R0, X}}
SiteOps(RR) == {[op |-> "addo", a |-> r, J |-> JM(M2)] : r \in RR}
               \cup {[op |-> "delo", a |-> r, strict |-> t] : r \in RR, t \in BOOLEAN}
               \cup {[op |-> o, a |-> r] : o \in {"haso", "geto"}, r \in RR}
AtomOps(RR) == {[op |-> "adda", a |-> r] : r \in {x \in RR : x.k = "obj"}}
               \cup {[op |-> "dela", a |-> r] : r \in RR}
Bnds == {Undef, "0", "1", "4", "5"}
Preds == {[k |-> "any"], [k |-> "iso_ge", v |-> "1"], [k |-> "xy_le", v |-> "0"], [k |-> "none", v |-> "0"]}
FilterOps == {[op |-> "filter", lo |-> l, hi |-> u, p |-> p] : l \in Bnds, u \in Bnds, p \in Preds}

Few == {Obj(A1), Nam("B"), Obj(C3)}
FailOps == {[op |-> "fail", what |-> w, t |-> t, a |-> r, b |-> Obj(A1), R |-> X] :
              w \in Failures \ {"bond", "site"}, t \in 0..7, r \in {Obj(A1)}}
           \cup {[op |-> "fail", what |-> w, t |-> t, a |-> r, b |-> Obj(A1), R |-> X] :
              w \in {"bond", "site"}, t \in 0..7, r \in {Obj(A1), Obj(C3)}}

Ops == CASE Kind = "notation"  -> NotationOps
         [] Kind = "undef"     -> NotationOps \cup ReadOps \cup BadOps \cup AddOps({Obj(A1)})
         [] Kind = "container" -> AddOps(Refs) \cup DelOps(Few) \cup AskOps(Few) \cup SiteOps(Refs) \cup AtomOps(Refs)
         [] Kind = "mirror"    -> AddOps({Obj(A1), Nam("B")}) \cup DelOps({Obj(A1), Nam("B")})
                                  \cup {[op |-> "setdc", v |-> v] : v \in Bools} \cup AtomOps({Obj(A1), Nam("B")})
         [] Kind = "fail"      -> FailOps \cup BadOps
         [] OTHER              -> FilterOps

Outcome(h, e) ==
    CASE e.op = "addx" -> AddExchange(h, e.a, e.b, e.R, BuildParam(e.J))
      [] e.op = "addo" -> AddOnSite(h, e.a, BuildParam(e.J))
      [] e.op = "delx" -> RemoveExchange(h, e.a, e.b, e.R, e.strict)
      [] e.op = "delo" -> RemoveOnSite(h, e.a, e.strict)
      [] e.op = "hasx" -> HasExchange(h, e.a, e.b, e.R)
      [] e.op = "haso" -> HasOnSite(h, e.a)
      [] e.op = "getx" -> GetExchange(h, e.a, e.b, e.R)
      [] e.op = "geto" -> GetOnSite(h, e.a)
      [] e.op = "adda" -> AddAtom(h, e.a.id)
      [] e.op = "dela" -> RemoveAtom(h, e.a)
      [] e.op = "setdc" -> Ok(SetDc(h, e.v))
      [] e.op = "setsn" -> Ok(SetSn(h, e.v))
      [] e.op = "setef" -> Ok(SetEf(h, e.v))
      [] e.op = "setof" -> Ok(SetOf(h, e.v))
      [] e.op = "setname" -> SetByName(h, e.v)
      [] e.op = "settuple" -> SetByTuple(h, e.v)
      [] e.op = "setbad" -> Err(h, "error")
      [] e.op = "read" -> ReadComponent(h, e.v)
      [] e.op = "fail" -> Failure(h, e)
      [] e.op = "readall" -> ReadNotation(h)
      [] e.op = "filter" -> Ok(Filter(h, e.lo, e.hi, e.p))

JHam(h) == [dc |-> h.dc, sn |-> h.sn, ef |-> h.ef, of |-> h.of, atoms |-> h.atoms,
            ex |-> SetToSeq({<<b[1], b[2], b[3], h.ex[b]>> : b \in DOMAIN h.ex}),
            on |-> SetToSeq({<<a, h.on[a]>> : a \in DOMAIN h.on})]
JAtoms == SetToSeq({[id |-> x, name |-> AT[x].name, idx |-> AT[x].idx, rank |-> AT[x].rank,
                     spin |-> AT[x].spin, spinv |-> <<"0", "0", AT[x].spin>>, pos |-> AT[x].pos] : x \in DOMAIN AT})
ASSUME Export => PrintT("HD|" \o ToJson([A |-> JAtoms, cell |-> Cell]))

Init == /\ pre \in InitHams
        /\ ev = [op |-> "none"] /\ post = Ok(pre) /\ phase = 0
Next == /\ phase = 0 /\ phase' = 1
        /\ \E e \in Ops :
             /\ ev' = e
             /\ post' = Outcome(pre, e)
             /\ Export => PrintT("TR|" \o ToJson([pre |-> JHam(pre), ev |-> e, post |-> JHam(post'.st),
                                                 res |-> post'.res, val |-> post'.val]))
        /\ UNCHANGED pre

-----------------------------------------------------------------------------
SetOps == {"setdc", "setsn", "setef", "setof", "setname", "settuple"}

\* C01: the notation never changes the physics, and is what was asked for
PhysicsPreserved == (ev.op \in SetOps /\ FullySet(pre)) => Phys(post.st) = Phys(pre)
Requested ==
    post.res = "ok" =>
      CASE ev.op = "setdc" -> post.st.dc = ev.v
        [] ev.op = "setsn" -> post.st.sn = ev.v
        [] ev.op = "setef" -> post.st.ef = ev.v
        [] ev.op = "setof" -> post.st.of = ev.v
        [] ev.op = "setname" -> <<post.st.dc, post.st.sn, post.st.ef, post.st.of>> = Predefined[ev.v]
        [] OTHER -> TRUE
\* C01: going back restores the values (from a state that double counting did not have to repair)
Repaired(h) == IF h.dc = "true" THEN MirrorsConsistent(h)
               ELSE \A b \in Bonds(h) : IsCanon(h, b) /\ (SelfMirror(b) \/ Mirror(b) \notin Bonds(h))
GoingBack == (ev.op \in SetOps /\ FullySet(pre) /\ Repaired(pre))
             => SetAll(post.st, <<pre.dc, pre.sn, pre.ef, pre.of>>) = pre
\* C23
FailuresFail == ev.op = "fail" => \/ post.res # "ok"
                                 \/ (ev.what \in {"store", "export"} /\ Storable(pre))
                                 \/ (ev.what \in {"filter raises", "filtered raises", "filter length"} /\ Bonds(pre) = {})
\* C02: the first setting of a component rescales nothing; errors change nothing
FirstSetting == /\ (ev.op = "setsn" /\ pre.sn = Undef) => post.st = [pre EXCEPT !.sn = ev.v]
                /\ (ev.op = "setef" /\ pre.ef = Undef) => post.st = [pre EXCEPT !.ef = ev.v]
                /\ (ev.op = "setof" /\ pre.of = Undef) => post.st = [pre EXCEPT !.of = ev.v]
                /\ (ev.op = "setdc" /\ pre.dc = Undef) =>
                      \A b \in Bonds(post.st) :
                         post.st.ex[b] = (IF b \in Bonds(pre) THEN pre.ex[b] ELSE MT(pre.ex[Mirror(b)]))
ErrorsChangeNothing == post.res # "ok" => post.st = pre
ReadsChangeNothing == ev.op \in {"read", "readall", "hasx", "haso", "getx", "geto"} => post.st = pre
\* C03: what was added is found, what was removed is not, and the rest stays
OnlyThatTerm ==
    LET touched == IF ev.op \in {"addx", "delx"} /\ post.res = "ok"
                   THEN LET b == <<Resolve(pre, ev.a), Resolve(pre, ev.b), ev.R>>
                        IN IF pre.dc = "true" THEN {b, Mirror(b)} ELSE {b}
                   ELSE {}
    IN /\ ev.op \in {"addx", "delx"} =>
            \A b \in (Bonds(pre) \cup Bonds(post.st)) \ touched :
               b \in Bonds(pre) /\ b \in Bonds(post.st) /\ pre.ex[b] = post.st.ex[b]
       /\ (ev.op = "addx" /\ post.res = "ok") => touched \subseteq Bonds(post.st)
       /\ (ev.op = "delx" /\ post.res = "ok") => touched \cap Bonds(post.st) = {}
       /\ (ev.op \in {"addx", "delx"}) => post.st.on = pre.on
       /\ (ev.op \in {"addo", "delo"}) => post.st.ex = pre.ex
RemovedAtomIsGone ==
    (ev.op = "dela" /\ post.res = "ok") =>
       LET a == Resolve(pre, ev.a)
       IN /\ a \notin Magnetic(post.st) /\ a \notin AtomSet(post.st)
          /\ Bonds(post.st) = {b \in Bonds(pre) : b[1] # a /\ b[2] # a}
          /\ Sites(post.st) = Sites(pre) \ {a}
KnownAtoms == AtomsKnown(post.st)
\* C04
Mirrors == MirrorsPresent(post.st)
MirrorsKept == (pre.dc = "true" /\ post.st.dc = "true" /\ MirrorsConsistent(pre)) => MirrorsConsistent(post.st)
OneSided == (ev.op = "setdc" /\ ev.v = "false") =>
               \A b \in Bonds(post.st) : IsCanon(post.st, b) /\ (SelfMirror(b) \/ Mirror(b) \notin Bonds(post.st))
NothingLost == ev.op = "setdc" => CanonSet(post.st) = CanonSet(pre)
\* C05
FilterExact ==
    ev.op = "filter" =>
      LET h == post.st IN
      /\ \A b \in Bonds(h) : h.ex[b] = pre.ex[b]
      /\ \A b \in Bonds(pre) :
           b \in Bonds(h) <=> /\ KeepBond(pre, b, ev.lo, ev.hi, ev.p)
                              /\ pre.dc = "true" => KeepBond(pre, Mirror(b), ev.lo, ev.hi, ev.p)
      /\ <<h.dc, h.sn, h.ef, h.of, h.atoms>> = <<pre.dc, pre.sn, pre.ef, pre.of, pre.atoms>>
FilterOneByOne ==
    ev.op = "filter" =>
      post.st = Filter(Filter(Filter(pre, ev.lo, Undef, [k |-> "any"]), Undef, ev.hi, [k |-> "any"]), Undef, Undef, ev.p)
FilterTwice == ev.op = "filter" => Filter(post.st, ev.lo, ev.hi, ev.p) = post.st
=============================================================================
