#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
HAM="src/magnopy/spinham/hamiltonian.py"; PAR="src/magnopy/spinham/parameter.py"; EN="src/magnopy/spinham/energy.py"
TXT="src/magnopy/io/txt/internal.py"; VER="src/magnopy/io/txt/verify.py"; H5="src/magnopy/io/hdf5/internal.py"
TB="src/magnopy/io/txt/tb2j.py"; VA="src/magnopy/io/txt/vampire.py"; DISP="src/magnopy/magnons/dispersion.py"; DIAG="src/magnopy/magnons/diagonalization.py"

p("C01","Changing the notation never changes the physics of the Hamiltonian",
  "Once the notation of a spin Hamiltonian is fully set, assigning any other notation (a predefined name, a tuple, or one component at a time: double counting, spin normalisation, exchange factor, on-site factor) leaves the energy of every spin configuration unchanged, whichever bonds and on-site terms are stored, whatever the (non-zero) spin values, also when one parameter object is shared by several bonds. After the assignment the Hamiltonian reports exactly the requested notation, and going back to the old notation restores the old parameter values.",
  ["inputs","histories"],"every Hamiltonian (atoms, spins, bonds, on-site terms) and every sequence of notation assignments",
  "the tests convert a couple of hand-made scalar bonds with one or two atoms; no test covers asymmetric 3x3 matrices, different spins on the two ends, both mirrored bonds stored, sharing, or sequences of conversions",
  [HAM],[("double_counting setter",HAM+":double_counting"),("spin_normalized setter",HAM+":spin_normalized"),("exchange_factor/on_site_factor setters",HAM+":exchange_factor"),("notation setter",HAM+":notation")])
p("C02","Notation is undefined until set; first setting reinterprets, bad ones fail",
  "Reading a notation component that was never set raises the notation error, and the first setting of a component only declares how the stored parameters are read: it does not rescale any value (a first declaration of double counting only adds missing or drops redundant mirrored bonds). The predefined names (Magnopy, TB2J, SpinW, Vampire, in any letter case) and tuples of three elements (one common factor) or four elements give the documented components; any other name or length is rejected with an error and changes nothing.",
  ["inputs","histories"],"every order of setting the components, interleaved with additions and removals of parameters",
  "tests set components in one or two fixed orders on tiny Hamiltonians",
  [HAM],[("notation getters/setters",HAM+":notation"),("PREDEFINED_NOTATIONS",HAM)])
p("C03","The Hamiltonian is a faithful container of parameters under any history",
  "After any sequence of additions, overwrites, removals, membership tests and lookups of bonds and on-site terms (by atom object, by atom name or through the indexing syntax) and of atom additions and removals, the Hamiltonian contains exactly the terms the sequence says, with exactly the given values, each term listed once by the iterators (the combined exchange-like iterator weighting on-site terms so that they count the same with the exchange factor), and the magnetic atoms are exactly the atoms with at least one term, ordered by index. Removing an atom removes every term it takes part in and nothing else. An operation with invalid arguments (missing bond, unknown atom, repeated atom, bad key) raises an error and leaves the Hamiltonian as it was.",
  ["histories","inputs"],"every finite sequence of container operations, in every notation state",
  "tests exercise single operations from a fresh object; combinations with double counting, names versus objects and removal of atoms are not reached",
  [HAM],[("dictionary-like methods",HAM+":__getitem__"),("add/remove exchange and on-site",HAM+":add_exchange"),("remove_atom",HAM+":remove_atom"),("magnetic_atoms",HAM+":magnetic_atoms"),("iterators",HAM+":_SpinHamiltonianExchangeLikeIterator")])
p("C04","With double counting every bond and its mirror stay consistent",
  "While double counting is set to on, for every stored bond (a, b, R) other than an atom with itself in the same cell the mirrored bond (b, a, -R) is stored too and its matrix is the transpose: adding, overwriting or removing one of them through the Hamiltonian's methods does the same to the other, and a filter keeps both or none. When double counting is switched off, exactly one bond of each mirrored pair remains (the one with R lexicographically positive, or the lower atom index first for R = 0), and switching it on from a one-sided Hamiltonian adds exactly the missing mirrors.",
  ["histories","inputs"],"every sequence of edits, filters and notation assignments",
  "tests check one pair after one assignment; overwriting, sharing, self-mirrored and non-canonical bonds are not covered",
  [HAM],[("_ensure_double_counting",HAM),("_ensure_no_double_counting",HAM),("mirror handling in add/remove_exchange",HAM+":add_exchange")])
p("C05","Filtering keeps exactly the terms that satisfy all the given conditions",
  "Filtering with any combination of minimal distance, maximal distance and custom predicate keeps exactly the bonds whose length satisfies min <= length <= max and whose parameter satisfies the predicate (an on-site term has length zero), with unchanged values and notation. The in-place variant edits the object; the other returns an independent filtered Hamiltonian and leaves the original untouched.",
  ["inputs","histories"],"every Hamiltonian and every combination of conditions, including bounds that coincide with a bond length",
  "tests use one cubic chain and one or two thresholds, and never combine conditions",
  [HAM],[("filter",HAM+":filter"),("filtered",HAM+":filtered")])
p("C06","Copies and derived objects never share state with the original",
  "A copy of a Hamiltonian, a filtered Hamiltonian, its crystal, an energy object and a magnon-dispersion object built from it are independent: no operation on one of them is visible in another, and building or using an energy or dispersion object leaves the source Hamiltonian's notation, bonds and values unchanged. Parameter objects the user passes in are never modified by operations on the Hamiltonian (atom objects that the user adds are shared with the user by design).",
  ["histories","inputs"],"every interleaving of operations on the original and on the derived objects",
  "tests never use the original after deriving an object from it",
  [HAM,EN,DISP],[("copy",HAM+":copy"),("crystal",HAM+":crystal"),("Energy constructor",EN+":Energy.__init__"),("MagnonDispersion constructor",DISP+":MagnonDispersion.__init__")])
p("C07","Matrix parameter: isotropic, anisotropic and DM parts always recombine",
  "For every 3x3 matrix the isotropic part is a third of the trace, the anisotropic part is traceless and symmetric, the DM part is antisymmetric with D = (J_yz, J_zx, J_xy antisymmetrised), and their sum is the matrix. Setting one part (the anisotropic one to a symmetric traceless matrix) replaces that part and leaves the others unchanged; components, transpose, arithmetic (+, -, *, /, negation), equality and construction from any subset of the parts agree with matrix algebra and never modify their operands.",
  ["inputs","histories"],"every matrix, every sequence of setter calls and arithmetic operations",
  "doctests and tests check single setters on a few constant matrices; sequences and operand aliasing are not covered",
  [PAR],[("iso/aniso/dmi setters",PAR+":MatrixParameter"),("arithmetic",PAR+":__add__")])
p("C08","Ferro energy equals the Hamiltonian evaluated at the given spins",
  "For every Hamiltonian in any notation the ferro-type classical energy of spin directions e_i is the full exchange plus on-site sum with spin vectors S_i e_i and the notation's own factors, plus the Zeeman term mu_B g_i S_i H.e_i per magnetic atom when a field is given. The result does not depend on the lengths of the given direction vectors nor on the notation the Hamiltonian is expressed in, and arrays of the wrong shape are rejected.",
  ["inputs"],"every Hamiltonian, notation, field and set of directions",
  "no test evaluates the energy at all",
  [EN],[("Energy.ferro",EN+":ferro"),("bond preparation",EN+":Energy.__init__")])
p("C09","Antiferro and spiral energies are averages over the modulated configuration",
  "For every Hamiltonian, cone axis n, spiral vector q (absolute) and spin directions, the spiral-type energy per unit cell equals the average, over the start angle and over cells, of the energy of the configuration in which the spins rotate by q.R about n from cell to cell. For 2q a reciprocal lattice vector the antiferro-type energy equals the average over cells of the configuration in which the component of each spin along n is the same in every cell and the perpendicular one is multiplied by cos(q.R) = +1 or -1. On-site and Zeeman terms are included, and neither energy depends on the notation or on the lengths of n and of the spin vectors.",
  ["inputs"],"every Hamiltonian, q, n, field and set of directions",
  "no test evaluates these energies",
  [EN],[("Energy.antiferro",EN+":antiferro"),("Energy.spiral",EN+":spiral")])
p("C10","Energy minimisation returns a consistent, non-increasing result",
  "For every Hamiltonian, kind of state (ferro, antiferro, spiral), initial guess (random or given), tolerance, iteration limit and history option, the minimisation starts at the given guess, never raises the energy from one recorded step to the next, and returns unit spin directions (and cone axis) of the documented shapes whose energy is not above that of the start; the antiferro vector stays as given, and a state reached before the iteration limit has torques small compared with the tolerance. The history lists, from the start to the end, the states with their own energies, in the file or on the output, no more steps than the limit. Invalid arguments are rejected with ValueError, a ferro or antiferro start without torque is returned unchanged, and the energy object and Hamiltonian stay usable and unchanged.",
  ["inputs","configurations"],"every Hamiltonian, initial guess and optimiser configuration",
  "the optimiser has no test",
  [EN],[("Energy.optimize",EN+":optimize"),("line search",EN+":_line_search")])
p("C11","Magnon spectrum follows from the Hamiltonian by linear spin-wave theory",
  "For every Hamiltonian in any notation (with mirrored bonds consistent and symmetric on-site matrices), every direction of the spins and every k point, the matrix whose diagonalisation gives the magnons equals the linear spin-wave matrix of the Hamiltonian built from the Fourier-transformed parameters in the local frames of the spins; it is Hermitian and does not depend on the notation. The frequencies are those of that matrix, and column j of the frequencies of a list of k points (absolute or relative, or a path) are the frequencies of point j. A state that is not stable gives zeros, or nothing when that is asked for; the frequencies of a stable state have no imaginary part.",
  ["inputs"],"every Hamiltonian, ground state and k point",
  "no test covers the magnons",
  [DISP],[("MagnonDispersion",DISP+":MagnonDispersion"),("J, A, B, C, h matrices",DISP+":J"),("omega",DISP+":omega")])
p("C12","Colpa diagonalisation satisfies its defining equations or reports failure",
  "For every Hermitian positive-definite matrix D of even size 2N (also with degenerate spectrum) the diagonalisation returns E with zero imaginary part, all of it positive, the first N values in descending and the last N in ascending order, and a transformation G with D = G^dagger diag(E) G that preserves the bosonic commutation relation G g G^dagger = g, g = diag(1,...,1,-1,...,-1). A matrix that is not positive definite is reported with the dedicated error, never with a wrong answer.",
  ["inputs"],"every Hermitian matrix of even size",
  "no test covers diagonalisation",
  [DIAG],[("solve_via_colpa",DIAG+":solve_via_colpa")])
p("C13","Loading a text model file yields the Hamiltonian the file describes",
  "For every valid text file, in every admitted variant of units (length, energy, relative coordinates), scale factor(s), column order of the atom table, spin specification, section order, letter case, comments and blank lines, and mixture of isotropic, DM, symmetric and full-matrix entries, the loaded Hamiltonian has exactly the described cell, atoms, spins, notation, bonds, on-site terms, cone axis and spiral vector. (A negative scale means the volume and is used with Angstrom; an absolute spiral vector is used with right-handed cells.)",
  ["inputs"],"every file accepted by the documented grammar",
  "no test loads a file",
  [TXT],[("load_spinham_txt",TXT+":load_spinham_txt"),("section readers",TXT)])
p("C14","A text model file is accepted exactly when it conforms to the format",
  "The loader accepts every text file that follows the documented format (unknown sections, comments and blank lines included) and rejects, with the dedicated format error and not with some other exception, every file in which a required section or line is missing, a section is repeated or malformed, a value is not a number, an atom is unknown or repeated, or a value of a keyword is not admitted. A rejected file never yields a Hamiltonian.",
  ["inputs"],"every text file, in particular every single-edit mutation of a valid file",
  "no test covers the verifier",
  [VER,TXT],[("_verify_model_file",VER),("section verifiers",VER)])
p("C15","Writing a model to text and loading it back gives the same Hamiltonian",
  "For every Hamiltonian with unique atom names and a notation that covers its terms, dumping it to text with any choice of options and loading the result gives the same cell, atoms (numbered anew; an undefined charge becomes zero), spins, notation, cone axis and spiral vector, and those parts of the bonds and on-site terms that were asked for (of on-site terms the symmetric part), each to its printed precision. Dumping leaves the Hamiltonian unchanged and always produces a file the loader accepts, or fails with the notation error.",
  ["inputs","histories"],"every Hamiltonian and every choice of dump options",
  "no test dumps a model",
  [TXT,VER],[("dump_model",TXT+":dump_model"),("load_spinham_txt",TXT+":load_spinham_txt")])
p("C16","HDF5 storage round-trips and keeps groups separate under any history",
  "For every Hamiltonian, storing it in an HDF5 file and loading it back gives the same Hamiltonian to full precision (the notation components relevant for its terms included). Under any sequence of stores into groups of one file (with or without overwriting, nested groups, files with other data of the user) each group holds the last Hamiltonian stored in it, everything else is untouched, an existing group is never overwritten without permission, and loading without a group name works exactly when there is one stored Hamiltonian.",
  ["histories","inputs"],"every sequence of store and load operations on one file, every Hamiltonian including more than nine terms",
  "no test covers hdf5",
  [H5],[("dump_spinham_hdf5",H5+":dump_spinham_hdf5"),("load_spinham_hdf5",H5+":load_spinham_hdf5")])
p("C17","A TB2J result file is read with its full content and conventions",
  "Loading a TB2J exchange file (the standard layout) gives the cell, atoms (position, charge, magnetic moment; a missing column leaves the charge undefined and the moment zero), and for every listed bond the exchange matrix made of its isotropic, anisotropic and DM parts, in TB2J's notation, whichever optional parts are present, in whichever order and however many bonds there are. Converting a file to magnopy's own formats, by the function or the command, preserves that Hamiltonian and never overwrites a stored one.",
  ["inputs"],"every TB2J output file in the documented layout",
  "no test reads a TB2J file",
  [TB,"src/magnopy/score/convert_tb2j.py"],[("load_tb2j",TB+":load_tb2j"),("convert_tb2j manager","src/magnopy/score/convert_tb2j.py:manager")])
p("C18","Vampire export describes the same Hamiltonian and leaves it unchanged",
  "For every Hamiltonian whose notation covers its terms the exported unit-cell file lists every atom and every interaction once, with the tensor in the Vampire convention in Joule to the requested number of digits, with on-site terms as requested, and without the DM part or with masked values when asked for; the material file lists per material the moment, direction and name of its representing atom. The Hamiltonian and its notation are the same after the export as before it.",
  ["inputs","configurations"],"every Hamiltonian, notation and choice of materials",
  "no test exports to Vampire",
  [VA],[("dump_ucf",VA),("dump_mat",VA)])
p("C19","The generic loader and the command line give the same result as the library",
  "The generic loader picks the reader by the explicitly given format (any letter case) or else by the file name, and gives the same Hamiltonian as that reader; unknown formats are rejected with ValueError. The command-line tools write the same Hamiltonian, spectrum and minimum that the library computes for the same inputs: rows of the dispersion are the points of the requested path, with their coordinates, in the (standard) cell with the frequencies of the Hamiltonian there; results of minimisation list every requested kind of state with its own energy, and its history. They create exactly the announced files and change no others.",
  ["inputs","configurations"],"every file kind, name and option combination",
  "no test runs the dispatcher or the command-line managers",
  ["src/magnopy/io/__init__.py","src/magnopy/score/convert_tb2j.py","src/magnopy/score/magnon_dispersion.py","src/magnopy/score/minimize_energy.py"],
  [("load_spinham","src/magnopy/io/__init__.py:load_spinham"),("managers","src/magnopy/score")])
p("C20","Text and HDF5 files are interchangeable along any conversion path",
  "A Hamiltonian stored by any chain of dumps and loads through the text and HDF5 formats (starting from a Hamiltonian in memory, a text file or a TB2J file, with notation changes, edits and filtering in between, mirrored bonds given consistently) describes the same physics, to the printed precision, as the chain of the same operations in memory.",
  ["histories"],"every chain of conversions, notation changes and filters",
  "no test combines formats",
  [TXT,H5,"src/magnopy/io/__init__.py"],[("text",TXT+":load_spinham_txt"),("hdf5",H5+":load_spinham_hdf5")])
p("C21","Changing the cell or the origin never changes the crystal or the physics",
  "Bringing a Hamiltonian's cell to the standard form, shifting its atoms and curing negative relative coordinates keep the lattice, every bond vector and distance, the set of terms and their values (the cell indices of bonds follow the new cell), the notation, the spiral vector in absolute coordinates, and so every energy and every magnon frequency at the same absolute k point. A cell that cannot be standardised raises an error and leaves the Hamiltonian as it was.",
  ["inputs","histories"],"every Hamiltonian and every sequence of changes of the cell, edits and notation changes",
  "no test standardises a Hamiltonian with more than one bond in an unusual cell or uses it afterwards",
  [HAM],[("standardize",HAM+":standardize")])
p("C23","An operation that fails changes nothing",
  "An operation of a Hamiltonian, or a dump or load, that ends with an error (malformed or unknown arguments, a filter function that raises, a notation that is not complete, a bond or atom that is not there or is there already, a file that is missing or must not be overwritten) leaves the Hamiltonian (atoms, bonds, on-site terms, notation, cell, spiral vector and cone axis), every other living object and the existing files exactly as they were, in every state of the notation; operations after it behave as if it had not happened.",
  ["histories","inputs"],"every state of a Hamiltonian and every failing call",
  "tests check that an error is raised, in one state; nothing looks at the state after it",
  [HAM,"src/magnopy/io"],[("SpinHamiltonian",HAM+":SpinHamiltonian"),("dump and load","src/magnopy/io")])
p("C22","HDF5 files in the documented layout load with their documented meaning",
  "Every HDF5 file in the documented layout, with any documented units (cell, exchange, on-site, spiral vector, cone axis), with the groups in any order, datasets of whole or real numbers, optional parts present or absent and atoms addressed by names or full names, loads as the Hamiltonian that the documentation describes: values in meV and Angstrom, atoms in the order of their numbers, spiral vector relative to the reciprocal cell, cone axis of unit length. A file with unknown units of energies or vectors, without a required group, dataset or attribute, or that refers to an unknown atom raises an error, and the file is never modified.",
  ["inputs"],"every file in the layout: units x order x parts",
  "no test loads a file that the code has not written",
  [H5],[("load",H5+":load_spinham_hdf5")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
