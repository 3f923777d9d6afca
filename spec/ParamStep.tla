----------------------------- MODULE ParamStep -----------------------------
(* Matrix parameters (magnopy.MatrixParameter) as objects: a sequence ps of
   parameters and a sequence us of arrays that belong to the user (arrays are
   given as arguments and may be modified by the user afterwards).

   An argument is [k |-> "lit", m |-> matrix], [k |-> "par", i |-> parameter] or
   [k |-> "arr", i |-> array].                                               *)
EXTENDS Param, TLC, Json

Comps == [xx |-> <<1, 1>>, xy |-> <<1, 2>>, xz |-> <<1, 3>>, yx |-> <<2, 1>>, yy |-> <<2, 2>>,
          yz |-> <<2, 3>>, zx |-> <<3, 1>>, zy |-> <<3, 2>>, zz |-> <<3, 3>>]
\* eager construction of a matrix
Mk(f(_, _)) == << <<f(1, 1), f(1, 2), f(1, 3)>>, <<f(2, 1), f(2, 2), f(2, 3)>>, <<f(3, 1), f(3, 2), f(3, 3)>> >>
SetComp(J, c, x) == Mk(LAMBDA i, j : IF <<i, j>> = Comps[c] THEN RNum(x) ELSE J[i][j])
MAbs(J) == Mk(LAMBDA i, j : RAbs(J[i][j]))
MElem(A, B) == Mk(LAMBDA i, j : RMul(A[i][j], B[i][j]))

\* quotient rounded downwards; where floating point may end on either side of a whole
\* number the recorded one (e.obs) decides between the two
Near == "1e-9"
Quot(a, n) == <<RFloor(RSub(RDiv(a, n), Near)), RFloor(RAdd(RDiv(a, n), Near))>>
Seen(e, i, j) == IF "obs" \in DOMAIN e /\ Len(e.obs.ps) > 0 THEN e.obs.ps[Len(e.obs.ps)].matrix[i][j] ELSE "none"
IsSeen(x, y, n) == RIsNum(x) /\ RLe(RAbs(RSub(x, y)), RMul(Near, RAbs(n)))
FloorDiv(J, n, e) == Mk(LAMBDA i, j : LET q == Quot(J[i][j], n)
                                      IN IF q[1] # q[2] /\ IsSeen(Seen(e, i, j), q[1], "1") THEN q[1] ELSE q[2])
Mod(J, n, e) == Mk(LAMBDA i, j : LET q == Quot(J[i][j], n)
                                     r == [k \in 1..2 |-> RSub(J[i][j], RMul(n, q[k]))]
                                 IN IF q[1] # q[2] /\ IsSeen(Seen(e, i, j), r[1], n) THEN r[1] ELSE r[2])

Arg(ps, us, a) == CASE a.k = "lit" -> MNum(a.m)
                    [] a.k = "par" -> ps[a.i]
                    [] OTHER -> us[a.i]
\* arguments of a construction, with sources resolved
Parts(ps, us, e) == (IF "matrix" \in DOMAIN e THEN [matrix |-> Arg(ps, us, e.matrix)] ELSE <<>>)
                    @@ (IF "iso" \in DOMAIN e THEN [iso |-> e.iso] ELSE <<>>)
                    @@ (IF "dmi" \in DOMAIN e THEN [dmi |-> VNum(e.dmi)] ELSE <<>>)
                    @@ (IF "aniso" \in DOMAIN e THEN [aniso |-> Arg(ps, us, e.aniso)] ELSE <<>>)

NewOps == {"new", "add", "sub", "mul", "rmul", "mulm", "div", "floordiv", "mod", "neg", "pos", "abs", "tr", "copy"}
Made(ps, us, e) ==
    CASE e.op = "new" -> BuildParam(Parts(ps, us, e))
      [] e.op = "add" -> MAdd(ps[e.o], ps[e.p])
      [] e.op = "sub" -> MSub(ps[e.o], ps[e.p])
      [] e.op \in {"mul", "rmul"} -> MScale(ps[e.o], RNum(e.v))
      [] e.op = "mulm" -> MElem(ps[e.o], Arg(ps, us, e.m))
      [] e.op = "div" -> MScale(ps[e.o], RDiv("1", e.v))
      [] e.op = "floordiv" -> FloorDiv(ps[e.o], RNum(e.v), e)
      [] e.op = "mod" -> Mod(ps[e.o], RNum(e.v), e)
      [] e.op = "neg" -> MScale(ps[e.o], "-1")
      [] e.op = "abs" -> MAbs(ps[e.o])
      [] e.op = "tr" -> MT(ps[e.o])
      [] OTHER -> ps[e.o]

SetOps == {"setm", "setiso", "setdmi", "setaniso", "setc"}
Changed(ps, us, e) ==
    CASE e.op = "setm" -> Arg(ps, us, e.m)
      [] e.op = "setiso" -> SetIso(ps[e.o], e.v)
      [] e.op = "setdmi" -> SetDmi(ps[e.o], VNum(e.v))
      [] e.op = "setaniso" -> SetAniso(ps[e.o], Arg(ps, us, e.m))
      [] OTHER -> SetComp(ps[e.o], e.c, e.v)

\* [ps, us, res, val]; val: "none" or what is returned
PStep(ps, us, e) ==
    LET st(p, u) == [ps |-> p, us |-> u, res |-> "ok", val |-> <<>>]
    IN CASE e.op \in NewOps -> st(Append(ps, Made(ps, us, e)), us)
         [] e.op \in SetOps -> st([ps EXCEPT ![e.o] = Changed(ps, us, e)], us)
         [] e.op = "arr" -> st(ps, Append(us, MNum(e.m)))
         [] e.op = "arrmut" -> st(ps, [us EXCEPT ![e.a] = SetComp(@, e.c, e.v)])
         [] e.op = "matmul" -> [st(ps, us) EXCEPT !.val = <<MMul(ps[e.o], Arg(ps, us, e.m))>>]
         [] e.op = "rmatmul" -> [st(ps, us) EXCEPT !.val = <<MMul(Arg(ps, us, e.m), ps[e.o])>>]
         [] e.op = "bad" -> [st(ps, us) EXCEPT !.res = "error"]
         [] OTHER -> st(ps, us)
=============================================================================
