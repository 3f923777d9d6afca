----------------------------- MODULE MCOptimize -----------------------------
(* All walks of a minimiser that never raises the energy, over the states of
   two spins with directions from a finite set, for a few Hamiltonians.  Every
   walk ends (Ends), below the energy of the start (Below), with the history
   being the walk itself (Falls, Last0, Steps); energies are bounded (Bounded). *)
EXTENDS Optimize, SequencesExt

CONSTANTS Limit
VARIABLES o, x, hist, pc
vars == <<o, x, hist, pc>>

A1 == "A__1"
B2 == "B__2"
AT == [a \in {A1, B2} |-> [name |-> a, idx |-> IF a = A1 THEN 1 ELSE 2, rank |-> IF a = A1 THEN 1 ELSE 2,
                           spin |-> IF a = A1 THEN "2" ELSE "3/2", spinv |-> <<"0", "0", "1">>, pos |-> VZero, g |-> "2", q |-> Undef]]
Dirs6 == {<<"1", "0", "0">>, <<"-1", "0", "0">>, <<"0", "1", "0">>, <<"0", "-1", "0">>, <<"0", "0", "1">>, <<"0", "0", "-1">>}
Js == {MScale(MOne, "-1"), MScale(MOne, "1"), << <<"0", "1", "0">>, <<"-1", "0", "0">>, <<"0", "0", "-1/2">> >>}
Ks == {MZero, << <<"0", "0", "0">>, <<"0", "0", "0">>, <<"0", "0", "-1">> >>}
Ham(J, K) == LET h0 == SetAll(EmptyHam(AT, MOne, <<A1, B2>>), <<"false", "true", "1", "1">>)
             IN [h0 EXCEPT !.ex = [b \in {<<A1, B2, R0>>} |-> J], !.on = [a \in {A1} |-> K]]
Obs == SetToSeq({[EnergyOf(Ham(J, K), <<A1, B2>>) EXCEPT !.H = H] : J \in Js, K \in Ks, H \in {<<>>, <<"0", "1", "0">>}})
Table == TLCEval([i \in DOMAIN Obs |-> TLCEval([st \in Dirs6 \X Dirs6 |-> Ferro(Obs[i], [a \in {A1, B2} |-> st[IF a = A1 THEN 1 ELSE 2]])])])
ASSUME TLCSet(7, Table)
E0(i, st) == TLCGet(7)[i][st]
Init == /\ o \in 1..12
        /\ x \in Dirs6 \X Dirs6
        /\ hist = <<E0(o, x)>>
        /\ pc = "walk"
\* every spin turns by a right angle at most
Near(st) == {s \in Dirs6 \X Dirs6 : \A i \in 1..2 : RLe("0", VDot(s[i], st[i]))} \ {st}
NearTab == TLCEval([st \in Dirs6 \X Dirs6 |-> Near(st)])
ASSUME TLCSet(9, LET nt == NearTab IN TLCEval([i \in DOMAIN Obs |-> TLCEval([st \in Dirs6 \X Dirs6 |-> {s \in nt[st] : RLt(E0(i, s), E0(i, st))}])]))
Better(st) == TLCGet(9)[o][st]
Walk == /\ pc = "walk" /\ Better(x) # {} /\ Len(hist) <= Limit
        /\ \E s \in Better(x) : x' = s /\ hist' = Append(hist, E0(o, s))
        /\ UNCHANGED <<o, pc>>
Stop == /\ pc = "walk" /\ (Better(x) = {} \/ Len(hist) > Limit)
        /\ pc' = "done" /\ UNCHANGED <<o, x, hist>>
Next == Walk \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Below == RLe(E0(o, x), hist[1])
Falls == \A k \in 1..(Len(hist) - 1) : RLt(hist[k + 1], hist[k])
Last0 == hist[Len(hist)] = E0(o, x)
Steps == Len(hist) <= Limit + 1
\* the energy of every state is within the bound
ASSUME TLCSet(8, TLCEval([i \in DOMAIN Obs |-> OptScale(Obs[i])]))
Bounded == RLe(RAbs(E0(o, x)), TLCGet(8)[o])
Ends == <>(pc = "done")
=============================================================================
