------------------------------- MODULE MCAny -------------------------------
(* Which reader and which writer is chosen.  One file (text, hdf5 with one or
   two Hamiltonians, result of TB2J, or none) under one name is loaded with one
   format and one group, or converted to another file.  Every case is exported,
   executed in the real code and judged by StoreTrace.                        *)
EXTENDS MCTb

VARIABLES case
avars == <<case, way>>

W0 == [dir |-> <<"one", "both", "other">>, order |-> "as is", parts |-> "all", inner |-> "as is", look |-> "round", remarks |-> TRUE, tag |-> "", cols |-> 8]
LN == Lines(W0)
ASSUME TLCSet(31, TbRead(LN))
HAM == TLCGet(31)

Kinds == {"txt", "h5", "h5two", "tb", "none"}
Names == {"m.txt", "model", "spin.hdf5.txt", "exchange.out", "Cr_exchange.out", "exchange.out.txt", "s.hdf5", "hdf5", "exchange.OUT", "a.HDF5", "exchange.hdf5",
          "exchange.outs", "my.exchange.out"}
Formats == {"", "txt", "TXT", "hdf5", "Hdf5", "HDF5", "tb2j", "TB2J", "Tb2j", "spinw", "h5", "text", "exchange.out", "tb2", ".hdf5"}
Targets == {"m.txt", "new", "x.hdf5", "n.hdf5.txt", "n.txt.hdf5", "hdf5", "out.HDF5", "spinham.txt"}
CFormats == {"", "txt", "hdf5", "TXT", "Hdf5", "tb2j", "h5", ".txt"}
\* the command accepts exactly "txt" and "hdf5"
Cases == [t : {"load"}, kind : Kinds, f : Names, fmt : Formats, g : {"", "spinham", "one/two"}]
         \cup [t : {"conv"}, kind : {"tb", "none"}, f : {"exchange.out", "a.out", "x.hdf5"}, to : Targets, fmt : CFormats, via : {"main", "manager"}]
GivenFor(c) == IF c.fmt # "" THEN SLower(c.fmt) ELSE IF SEnds(c.f, ".hdf5") THEN "hdf5" ELSE IF SEnds(c.f, "exchange.out") THEN "tb2j" ELSE "txt"
Valid(c) ==
    IF c.t = "load" THEN /\ c.g # "" => GivenFor(c) = "hdf5"
                         /\ ~(c.kind = "txt" /\ GivenFor(c) = "tb2j")     \* a text without any section of TB2J
    ELSE c.f # c.to /\ (c.via = "main" => c.fmt = SLower(c.fmt))

O1 == [matrix |-> TRUE, iso |-> FALSE, dmi |-> FALSE, symm |-> FALSE, dist |-> FALSE, angles |-> FALSE]
Tb(f) == [op |-> "puttb", o |-> 1, f |-> f, lines |-> <<>>]
\* first the Hamiltonian is loaded from a result of TB2J under another name
Prepare(c) ==
    IF c.t = "conv" THEN (IF c.kind = "tb" THEN <<Tb(c.f)>> ELSE <<>>)
    ELSE CASE c.kind = "none" -> <<>>
           [] c.kind = "tb" -> <<Tb(c.f)>>
           [] c.kind = "txt" -> <<Tb("src"), [op |-> "loadtb", o |-> 1, f |-> "src", via |-> "quiet"],
                                  [op |-> "dumpt", o |-> 2, f |-> c.f, opts |-> O1, via |-> "file"]>>
           [] OTHER -> <<Tb("src"), [op |-> "loadtb", o |-> 1, f |-> "src", via |-> "quiet"],
                         [op |-> "dumph", o |-> 2, f |-> c.f, g |-> "spinham", ow |-> FALSE, via |-> "all", above |-> <<>>]>>
                       \o IF c.kind = "h5" THEN <<>>
                          ELSE <<[op |-> "dumph", o |-> 2, f |-> c.f, g |-> "one/two", ow |-> FALSE, via |-> "all", above |-> <<"one">>]>>
Main(c) == IF c.t = "load" THEN [op |-> "loadany", o |-> 1, f |-> c.f, fmt |-> c.fmt, g |-> c.g]
           ELSE [op |-> "conv", o |-> 1, f |-> c.f, t |-> c.to, fmt |-> c.fmt, via |-> c.via, far |-> c.to # "spinham.txt", loud |-> FALSE, fo |-> "-if", to |-> "-of"]
After(c) == IF c.t = "load" THEN <<>> ELSE <<[op |-> "loadany", o |-> 1, f |-> ConvTarget(Main(c)), fmt |-> "", g |-> ""]>>

Files(c) ==
    LET s == Stored(HAM)
        f == IF c.t = "conv" /\ c.kind = "tb" THEN "tb" ELSE c.kind
        p(x) == PutFile(<<>>, c.f, x)
    IN CASE f = "none" -> <<>>
         [] f = "tb" -> p([k |-> "tb", sha |-> "none", h |-> HAM])
         [] f = "txt" -> p([k |-> "txt", sha |-> "none", h |-> InText(HAM, O1)])
         [] f = "h5" -> p([NewH5 EXCEPT !.g = [x \in {"spinham"} |-> s], !.dirs = {"spinham"}])
         [] OTHER -> p([NewH5 EXCEPT !.g = [x \in {"spinham", "one/two"} |-> s], !.dirs = {"spinham", "one", "one/two"}])

InitA == way = W0 /\ case \in {c \in Cases : Valid(c)}
NextA == UNCHANGED avars

Result(c) == IF c.t = "load" THEN LoadAny(Files(c), Main(c)) ELSE Conv(Files(c), Main(c) @@ [sha |-> "none"])
\* loaded exactly if the content is what the format or, without format, the name says
Loads == case.t = "load" =>
    LET r == Result(case)
        g == GivenFor(case)
        fits == \/ g = "txt" /\ case.kind = "txt"
                \/ g = "tb2j" /\ case.kind = "tb"
                \/ g = "hdf5" /\ case.kind = "h5" /\ case.g \in {"", "spinham"}
                \/ g = "hdf5" /\ case.kind = "h5two" /\ case.g # ""
    IN /\ (r.res = "ok") <=> fits
       /\ fits => Phys([r.new[1] EXCEPT !.of = "-1"]) = Phys(HAM)
       /\ r.fs = Files(case)
       /\ g \notin {"txt", "hdf5", "tb2j"} => r.res = "ValueError"
\* a given format wins over the name, in any case of letters
Name == (case.t = "load" /\ case.fmt # "") =>
    /\ Result([case EXCEPT !.fmt = SLower(case.fmt)]) = Result(case)
    /\ \A f \in Names : Result([case EXCEPT !.f = f]).new = Result(case).new
\* what was converted can be loaded again by its name alone, nothing else is written
Converts == case.t = "conv" =>
    LET r == Result(case)
        l == LoadAny(r.fs, After(case)[1])
    IN /\ r.res # "ok" => r.fs = Files(case)
       /\ r.res = "ok" => /\ DOMAIN r.fs = {case.f, ConvTarget(Main(case))}
                          /\ IF SLower(case.fmt) = "txt" /\ SEnds(case.to, ".hdf5") THEN l.res = "error"     \* a text under a misleading name
                             ELSE l.res = "ok" /\ Phys([l.new[1] EXCEPT !.of = "-1"]) = Phys(HAM)
       /\ (r.res = "ok") <=> (case.kind = "tb" /\ SLower(case.fmt) \in {"", "txt", "hdf5"})

ASSUME Export => PrintT("LN|" \o ToJson(LN))
OutA == Export => PrintT("TR|" \o ToJson(Prepare(case) \o <<Main(case)>> \o After(case)))
=============================================================================
