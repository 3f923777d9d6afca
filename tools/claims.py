# entries of MANIFEST.json in addition to mkmanifest.py: id -> (technique, note)
C.update({
 "C06": ("TLC model checking of a heap of Hamiltonians and derived objects (MCHeap); execution of every explored sequence in the code; trace validation", "Every sequence of 3 (4) events (copy, filtered, crystal, energy, dispersion, edits, notation, edits of the crystal) is executed in the real code with all live objects observed after each event; random histories of 22 (40) events."),
 "C08": ("TLC model checking of EnergyClassic.tla (MCEnergy); replay of cases in the code; trace validation of energies", "Independence of notation and lengths is checked on every small Hamiltonian of the universe, the energies are replayed in the code; random histories of edits, fields, g factors, spins and energies are validated (tolerance 1e-8)."),
 "C09": ("TLC model checking of EnergyClassic.tla (MCEnergy); replay of cases in the code; trace validation of energies", "The closed forms are checked against the average over cells (rotation angles) on a small universe, the energies are replayed in the code; random histories with arbitrary q, n, directions, fields (tolerance 1e-8)."),
 "C11": ("TLC model checking of Lswt.tla (MCEnergy); replay of spin-wave matrices in the code; trace validation of matrices, frequencies and transformations", "Hermiticity, independence of notation and of the choice of local frames are checked on a small universe; matrices are replayed in the code; random histories with arbitrary spin directions and k points, frequencies are checked by substitution into the specified matrix."),
 "C07": ("TLC model checking of ParamStep.tla (MCParam); execution of every explored sequence in the code; trace validation", "Every sequence of 2 (3) operations on a small pool of parameters (constructors, part setters, arithmetic, mirror) is executed in the real code with every part of every live parameter observed after each step; random sequences of 16 (30) operations."),
 "C12": ("TLC model checking of Colpa.tla (MCColpa); replay in the code; trace validation of results by substitution", "On a small set of matrices the existence and uniqueness of the diagonal form is checked in the model; the results returned by the code for these and for random matrices of dimension 2 to 10 are checked by substitution into the specified equations (tolerance)."),
 "C13": ("TLC model checking of TxtFile.tla (MCTxt); every explored file is given to the real loader; trace validation of loaded Hamiltonians", "Read(file), the meaning of a text file, is specified on raw lines with exact arithmetic; ways of writing one model (units, scale, columns, spins, values, order, notation) are enumerated and their meaning checked against a direct definition; the files and 3000 (30000) random ones are loaded by the real code and compared component by component."),
 "C14": ("TLC model checking of TxtFile.tla (MCTxt); every explored file is given to the real loader; trace validation of outcomes", "Verdict(file) accept / reject / unspecified is specified on raw lines; harmless and breaking edits of files are enumerated; 6000 (60000) random valid and mutated files are given to the real loader and the outcome (accepted, error class) is compared."),
 "C15": ("TLC model checking of Store.tla (MCStore); execution of every explored sequence in the code; trace validation of written files and loaded Hamiltonians", "Every text that the code writes is read by the specified reader (TxtFile.Read) and compared with the Hamiltonian to the printed precision, and the loaded Hamiltonian is compared with that text; sequences of 4 (5) events are enumerated, random histories of dumps with all options and loads."),
 "C16": ("TLC model checking of Store.tla (MCStore); execution of every explored sequence in the code; trace validation of files and loaded Hamiltonians", "The file is specified as groups (nested ones, data of the user); sequences of 3 (4) events (store with and without permission to overwrite, load with and without group name, edits) are enumerated and executed, groups are observed after every event; random histories with up to 13 atoms."),
 "C20": ("TLC model checking of Store.tla (MCStore); execution of every explored sequence in the code; trace validation", "Histories that mix both formats, the generic loader, changes of notation, filters and edits; every object is compared with the specified one after every event."),
 "C17": ("TLC model checking of Tb2j.tla/Store.tla (MCTb); every explored way to write a file is given to the real reader and converter; trace validation of random files and histories", "1296 (7776) ways to write one result of TB2J (directions, order, parts, brackets, remarks, missing columns) have the same meaning and survive conversion in the model and in the code; random files with up to 70 pairs, loaded, converted by the function and by the command, stored again."),
 "C18": ("TLC model checking of Vampire.tla (MCVamp); export of every explored Hamiltonian by the code; trace validation of the exported files", "The files are read by the specification and compared with the Hamiltonian in the convention of Vampire; in the model the energy of the listed interactions is the energy of the Hamiltonian for all cases; random Hamiltonians, notations, masks, numbers of decimals and materials; the Hamiltonian is observed after the export."),
 "C10": ("TLC model checking of Optimize.tla (MCOptimize); trace validation of minimisations (results and histories) against the specification", "The minimisation is specified as any walk of bounded length that starts at the guess, never raises the specified energy and ends without torque; the walk is model checked on a small universe; for random Hamiltonians, guesses, tolerances, limits, fields and history options every recorded state, its energy and torques and the result are compared with the specified energy and its gradient."),
 "C19": ("TLC model checking of which reader and writer is chosen (MCAny); every explored case executed in the code; trace validation of loads and commands", "1987 cases (content of the file, name, format, group; conversions) are enumerated, their meaning checked and executed; random histories with the generic loader; the commands for dispersion and minimisation are run and the files they write are compared with the specified spectrum, energies and paths."),
 "C23": ("TLC model checking of Ham.tla (MCHam, failing calls in every state); replay of transitions in the code; trace validation of histories", "Every failing call of a list (unusable arguments of every operation, raising filters, files that can not be written or read) in every state of a small universe with every notation state, replayed in the code; random histories (16 (25) events) in which half of the calls fail, all living objects and files observed after every event."),
 "C22": ("TLC model checking of Hdf5File.tla (MCH5); every explored file is given to the real loader; trace validation of loaded Hamiltonians", "465 (more) files of one model: all units, shapes, parts and single spoiled nodes; the meaning is proved against direct conversion of the base model; all files and random ones (up to 12 atoms, shuffled groups, integer and real datasets) are loaded by the code and every observation is compared."),
 "C21": ("TLC model checking of changes of the cell (MCCell); execution of cells and histories in the code; trace validation", "Sequences of 3 (4) changes of the cell and origin and edits keep bonds, vectors, spiral vector and spin-wave matrices in the model; cells reached there and random ones are standardised in the code, observed, edited, and energies and frequencies compared."),
})
