------------------------------ MODULE MCParam ------------------------------
(* All short sequences of operations on two parameters and one array of the
   user.  The sequences are exported and executed in the real code.          *)
EXTENDS ParamStep

CONSTANTS Depth, Export
VARIABLES ps, us, hist, old
vars == <<ps, us, hist, old>>

M1 == << <<"1", "2", "0">>, <<"-4", "5/2", "-1">>, <<"3", "0", "7">> >>
M2 == << <<"0", "-1/2", "3">>, <<"1", "0", "8">>, <<"-2", "1/4", "-5">> >>
An == << <<"2", "1", "-1/2">>, <<"1", "-3", "4">>, <<"-1/2", "4", "1">> >>
Start == << [op |-> "arr", m |-> M2], [op |-> "new", matrix |-> [k |-> "lit", m |-> M1]],
            [op |-> "new", matrix |-> [k |-> "arr", i |-> 1]] >>

Obj == {1, 2}
Events ==
    {[op |-> "setiso", o |-> o, v |-> "5"] : o \in Obj}
    \cup {[op |-> "setdmi", o |-> o, v |-> <<"1", "-2", "1/2">>] : o \in Obj}
    \cup {[op |-> "setaniso", o |-> o, m |-> [k |-> "lit", m |-> An]] : o \in Obj}
    \cup {[op |-> "setm", o |-> o, m |-> x] : o \in Obj, x \in {[k |-> "par", i |-> 1], [k |-> "par", i |-> 2], [k |-> "arr", i |-> 1]}}
    \cup {[op |-> "setc", o |-> 1, c |-> c, v |-> "9/2"] : c \in DOMAIN Comps}
    \cup {[op |-> "setc", o |-> 2, c |-> "yz", v |-> "-3"]}
    \cup {[op |-> "arrmut", a |-> 1, c |-> "xz", v |-> "11"]}
    \cup {[op |-> x, o |-> 1, p |-> p] : x \in {"add", "sub"}, p \in Obj}
    \cup {[op |-> x, o |-> 1, v |-> "-3"] : x \in {"mul", "rmul", "div"}}
    \cup {[op |-> x, o |-> o] : x \in {"neg", "pos", "abs", "tr"}, o \in Obj}
    \cup {[op |-> "mulm", o |-> 1, m |-> [k |-> "arr", i |-> 1]]}
    \cup {[op |-> x, o |-> 2, m |-> [k |-> "lit", m |-> M1]] : x \in {"matmul", "rmatmul"}}
    \* operations on the newest object, to see whether it shares values with others
    \cup {[op |-> "setc", o |-> Len(ps), c |-> "zx", v |-> "1/8"], [op |-> "setiso", o |-> Len(ps), v |-> "1"]}

RECURSIVE Run(_, _, _)
Run(p, u, l) == IF l = <<>> THEN <<p, u>> ELSE LET s == PStep(p, u, Head(l)) IN Run(s.ps, s.us, Tail(l))

ASSUME Export => PrintT("HD|" \o ToJson(Start))
Init == LET r == Run(<<>>, <<>>, Start) IN ps = r[1] /\ us = r[2] /\ hist = <<>> /\ old = <<r[1], r[2]>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Events :
             LET s == PStep(ps, us, e)
             IN ps' = s.ps /\ us' = s.us /\ hist' = Append(hist, e) /\ old' = <<ps, us>>
        /\ (Export /\ Len(hist') = Depth) => PrintT("TR|" \o ToJson(hist'))

-----------------------------------------------------------------------------
Last == hist[Len(hist)]
Recombine == \A k \in DOMAIN ps : LET J == ps[k] IN
    /\ MAdd(MAdd(IsoM(J), Aniso(J)), DmiMat(Dmi(J))) = J
    /\ MTrace(Aniso(J)) = "0" /\ MT(Aniso(J)) = Aniso(J)
    /\ DmiMat(Dmi(J)) = DmiM(J) /\ MT(DmiM(J)) = MScale(DmiM(J), "-1")
    /\ BuildParam([iso |-> Iso(J), aniso |-> Aniso(J), dmi |-> Dmi(J)]) = J
    /\ BuildParam([matrix |-> ps[1], iso |-> Iso(J), aniso |-> Aniso(J), dmi |-> Dmi(J)]) = J
    /\ Dmi(MT(J)) = VScale(Dmi(J), "-1") /\ Aniso(MT(J)) = Aniso(J) /\ Iso(MT(J)) = Iso(J)
OnePart == hist # <<>> /\ Last.op \in {"setiso", "setdmi", "setaniso"} =>
    LET J == ps[Last.o]
        K == old[1][Last.o]
    IN /\ Iso(J) = (IF Last.op = "setiso" THEN Last.v ELSE Iso(K))
       /\ Dmi(J) = (IF Last.op = "setdmi" THEN Last.v ELSE Dmi(K))
       /\ Aniso(J) = (IF Last.op = "setaniso" THEN Last.m.m ELSE Aniso(K))
OneObject == hist # <<>> =>
    /\ \A k \in DOMAIN old[1] : (Last.op \in SetOps /\ Last.o = k) \/ ps[k] = old[1][k]
    /\ Last.op = "arrmut" \/ us = old[2]
Algebra == hist # <<>> /\ Last.op \in NewOps =>
    LET N == ps[Len(ps)]
        J == ps[Last.o]
    IN CASE Last.op = "add" -> MSub(N, J) = ps[Last.p]
         [] Last.op = "sub" -> MAdd(N, ps[Last.p]) = J
         [] Last.op = "div" -> MScale(N, Last.v) = J
         [] Last.op = "neg" -> MAdd(N, J) = MZero
         [] Last.op = "tr" -> MT(N) = J
         [] OTHER -> TRUE
=============================================================================
