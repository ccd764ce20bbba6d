"""Writes properties.jsonl (kept as a script only so that the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
R = 'parsevasp/'

prop("I01", "INCAR text is read into exactly the tags and typed values it states",
 "Reading an INCAR text yields one entry per tag that has an assignment `TAG = value`, with lower-case tag, several assignments on one line separated by `;`, everything after `#` kept only as the comment of that line's entries, and the last assignment of a tag winning. A value of one word gives an int, a float, a bool (dotted Fortran logicals) or the word itself, several words give the list of them when all are of one type, no word gives an empty list, and the free-text tags keep their text as it stands. Blank lines, comment-only lines, extra blanks and the kind of source (string, path, handler) never change the result.",
 ["inputs"], "all INCAR texts in the documented grammar: any number of lines, statements, tags, values, comments and blanks",
 "The tests read a handful of fixed INCAR files; the meaning has to hold for every combination of separators, comments, duplicates and value types.",
 [R+"incar.py", R+"utils.py"],
 [("Incar._from_list / _from_string line grammar", R+"incar.py"), ("IncarItem value typing", R+"incar.py"), ("test_string_content", R+"utils.py")],
 [("entries", "tag -> IncarItem (value, comment)", R+"incar.py")], ["Incar.get_dict()", "Incar.get(tag)"])

prop("I02", "Writing an INCAR and reading it back gives the same entries",
 "For every INCAR content whose values are logicals, integers, floats, words, free text where the tag allows it, or lists of two or more logicals, integers, floats or words, the text that is written contains one line per tag in sorted order, and reading that text gives the same tags with equal values of the same types. With comments requested, the comments are also the same after reading back; without, the values are unaffected by them. Writing never changes the stored entries.",
 ["inputs", "configurations"], "every set of tags with values of the supported types, with and without comments, written to a path or a handler",
 "One or two fixed files are round-tripped by the tests; equality has to hold for every value, e.g. each float, each list of logicals and each comment.",
 [R+"incar.py", R+"base.py"], [("Incar._write / get_string", R+"incar.py"), ("IncarItem", R+"incar.py")], [], ["Incar.write()", "Incar.get_string()"])

prop("I03", "INCAR input is validated with fixed exit codes and edits change one tag only",
 "A statement with more than one `=`, a statement without `=`, a value with more than one `#`, a value of an unsupported or mixed type, or (unless validation is off) an unsupported tag makes the program exit with the documented code of that fault, whatever else is present. Changing or deleting a tag changes exactly that tag, a tag that is absent is reported as absent and can be deleted without effect, and the dictionary that is returned reflects precisely the stored entries. A rejected input never yields an object holding part of it.",
 ["inputs", "histories"], "all INCAR contents with any one fault at any place, and all sequences of modify, delete and get",
 "The tests try a few faults each in one place and single edits; the guarantee is over all contents, positions and edit sequences.",
 [R+"incar.py"], [("Incar.modify / delete / get / _validate", R+"incar.py"), ("IncarItem constructor checks", R+"incar.py")],
 [("entries", "tag -> IncarItem", R+"incar.py")], ["SystemExit code", "Incar.get_dict()"])

prop("K01", "A KPOINTS file is read into exactly the sampling it describes",
 "Reading a KPOINTS file gives the comment, the mode (explicit, line or automatic), the centering, the number of points, the divisions or generating vectors, the shift and, per point, coordinates, weight and whether it is direct or cartesian, each equal to the number written at that place of the file, with points in file order. In line mode points come in pairs of start and end, blank lines between segments do not matter, and each weight is one; tetrahedra are read with their volume and corner indices. The result does not depend on extra blanks or on whether a path or a handler is given.",
 ["inputs"], "all well-formed explicit, line-mode and automatic (Gamma, Monkhorst-Pack, generating vectors) KPOINTS files with any number of points, segments and tetrahedra",
 "The tests read one file per mode; the mapping must hold for every number of points and every placement of the optional parts.",
 [R+"kpoints.py", R+"utils.py"], [("Kpoints._from_list", R+"kpoints.py"), ("Kpoint", R+"kpoints.py")],
 [("entries", "parsed KPOINTS content", R+"kpoints.py")], ["Kpoints.get_dict()"])

prop("K02", "Writing KPOINTS and reading it back gives the same sampling",
 "For every k-point sampling that can be constructed, in all modes, the written file read back gives an equal sampling: same mode, centering, counts, order of points, coordinates, weights and tetrahedra, with numbers equal up to the requested number of digits and an absent shift or weight written as zero or one. Writing never changes the stored entries.",
 ["inputs", "configurations"], "every explicit, line-mode and automatic content with any number of points or tetrahedra, with and without shift, weights and comment",
 "Tests compare a few fixed samplings; each combination of mode and optional entries takes another path through the writer and the reader.",
 [R+"kpoints.py", R+"base.py"], [("Kpoints._write and its mode-specific writers", R+"kpoints.py"), ("Kpoints._from_list", R+"kpoints.py")], [], ["Kpoints.write()"])

prop("K03", "KPOINTS entries are validated and edits keep them consistent",
 "Constructing or modifying a k-point sampling with an entry that is missing, unknown or of a wrong type makes the program exit with the documented code of that fault and stores nothing of it, while every valid entry is stored unchanged. Replacing or deleting a point affects that point only, keeps the other points in order, and in explicit mode the stored number of points is always the number of points present. The dictionary that is returned reflects precisely the stored entries.",
 ["inputs", "histories"], "all entry dictionaries with any one fault, and all sequences of modify, delete and get operations",
 "Tests exercise single edits and few invalid types; consistency has to survive every sequence of edits.",
 [R+"kpoints.py"], [("Kpoints.modify / delete_point / get", R+"kpoints.py"), ("Kpoints._check_* functions", R+"kpoints.py")],
 [("entries.points / num_kpoints", "points and their number", R+"kpoints.py")], ["SystemExit code", "Kpoints.get_dict()"])

prop("S01", "A POSCAR file is read into exactly the structure it describes",
 "Reading a POSCAR gives the comment, the unit cell multiplied by the scaling factor, and the sites in file order, each with the species given by the species and counts lines, its position, its selective-dynamics flags, and its velocity and predictor when present, each equal to the number at that place of the file. Positions are returned as direct coordinates of the scaled cell also when the file holds Cartesian ones. Files of the old format without species names and negative scaling factors are refused with the documented code, and species with zero sites, trailing blank lines and extra blanks never change the other sites.",
 ["inputs"], "all well-formed POSCAR files: any number of species and sites, any scaling, direct or cartesian, with or without selective dynamics, velocities and predictors",
 "The tests hold a few fixed structures; line arithmetic and the conversions must be right for every count and combination of optional blocks.",
 [R+"poscar.py", R+"utils.py"], [("Poscar._from_list", R+"poscar.py"), ("Site", R+"poscar.py")],
 [("entries", "comment, unitcell, sites", R+"poscar.py")], ["Poscar.get_dict()"])

prop("S02", "Writing a POSCAR and reading it back gives the same structure",
 "For every structure that can be constructed, the written POSCAR groups the sites by species so that the species and counts lines agree with the sites that follow, and reading it back gives the same cell and the same sites (species, position, selective flags, velocity, predictors) up to the printed digits, in the same order within each species. When the original order is to be conserved, the sites come back in exactly the stored order. Writing never changes the stored structure.",
 ["inputs", "configurations"], "every list of sites over any species in any order, with and without selective dynamics, velocities, predictors and order conservation",
 "Tests write a few structures of one or two species; a mismatch between counts and site order shows only for particular orders of species.",
 [R+"poscar.py", R+"base.py"], [("Poscar._write and site sorting/grouping", R+"poscar.py"), ("Poscar._from_list", R+"poscar.py")], [], ["Poscar.write()"])

prop("S03", "POSCAR entries are validated and site edits change only that site",
 "Constructing or modifying a structure with a missing, unknown or wrongly typed entry, replacing a site by something that is not a site, or addressing a site beyond the last one makes the program exit with the documented code, while every valid entry is stored. Replacing or deleting a site affects that site only and keeps the others and their order, and the dictionary returned reflects precisely the stored sites. Reading values back never alters them.",
 ["inputs", "histories"], "all entry dictionaries with any one fault, and all sequences of modify, delete and get operations",
 "Tests try single edits and few invalid types; the guarantee is over all edit sequences and faults.",
 [R+"poscar.py"], [("Poscar.modify / delete_site / get", R+"poscar.py"), ("Poscar._check_* functions", R+"poscar.py")],
 [("entries.sites", "list of sites", R+"poscar.py")], ["SystemExit code", "Poscar.get_dict()"])

prop("G01", "Direct and cartesian coordinates convert into each other exactly",
 "Converting a vector from direct to cartesian coordinates multiplies it by the lattice with the lattice vectors as rows, converting from cartesian to direct is its inverse for every lattice with non-zero volume, and the reciprocal lattice times the transposed lattice is two pi times the identity. The same convention holds wherever structures and k-points are converted, and cell volumes are positive whatever the handedness of the lattice.",
 ["inputs"], "all 3-vectors and all non-singular 3x3 lattices, including left-handed and non-symmetric ones",
 "Tests use one or two lattices, mostly symmetric ones for which a transposed or inverted convention gives the same numbers.",
 [R+"utils.py", R+"poscar.py", R+"kpoints.py"], [("dir_to_cart, cart_to_dir, lat_to_reclat", R+"utils.py"), ("_to_direct / _to_cart", R+"poscar.py")], [], ["utils conversions", "Poscar sites", "Chgcar volume"])

prop("O01", "The run status of an OUTCAR follows from its content alone",
 "The status reports a run as finished if and only if its closing timing section is present, and as electronically converged if and only if it finished and its last ionic step took fewer electronic steps than NELM. A finished relaxation counts as ionically converged when it took fewer ionic steps than NSW, as not converged when it reached an NSW above one and as undetermined for NSW up to one, a finished run without relaxation is undetermined and an unfinished one not converged; NELM is reported as breached if some ionic step reached it, and as consistently breached if all did, not counting the last of several steps of an unfinished run. The last ionic and electronic iteration and the limits are those the log states, a log without any iteration is refused with the documented code, and unrelated lines never matter.",
 ["inputs", "crash_points"], "all OUTCAR logs: any number of ionic and electronic steps, any limits, cut at any line",
 "The tests hold a few complete logs and very few interrupted ones; the decision table over limits, steps and where a run stopped has far more cases.",
 [R+"outcar.py", R+"utils.py"], [("Outcar._parse_iterations / run_status", R+"outcar.py"), ("match_integer_param", R+"utils.py")],
 [("run_status", "finished/converged flags and last iterations", R+"outcar.py")], ["Outcar.get_run_status()"])

prop("O02", "Quantities read from OUTCAR are the numbers printed there",
 "Symmetry information (number of operations, point group and original cell type, static and dynamic), elastic moduli (non-symmetrized, symmetrized, total), site and full-cell magnetization per ion, axis and orbital, and run statistics equal what is printed in the corresponding tables of the log, with the last table of a kind being the one reported. Quantities that are not present are reported as absent, and no unrelated line changes any of them.",
 ["inputs"], "all OUTCAR logs with any number of ions, orbitals and repetitions of the tables, with any lines in between",
 "The tests check fixed tables for one system each; the row and column arithmetic must hold for every number of ions and orbitals.",
 [R+"outcar.py"], [("Outcar._from_list table readers", R+"outcar.py")],
 [("_data", "symmetry, elastic, magnetization, run_stats", R+"outcar.py")], ["Outcar.get_symmetry()", "get_elastic_moduli()", "get_magnetization()", "get_run_stats()"])

prop("C01", "CHGCAR densities are the printed values over the cell volume at their grid point",
 "Element (z, y, x) of the charge density is the value printed for that grid point, with x running fastest in the file, divided by the positive volume of the scaled cell. One extra dataset gives the magnetization as an array, three extra datasets give it as x, y and z in file order, none gives no magnetization. Augmentation data and line breaks within the data never enter the arrays.",
 ["inputs"], "all CHGCAR files: any grid, lattice and scaling, one, two or four datasets, with or without augmentation occupancies",
 "The tests hold fixed files with one grid each; transposed axes or a wrong dataset show only for non-cubic grids and distinct data.",
 [R+"chgcar.py"], [("Chgcar._from_file", R+"chgcar.py")], [("_data", "total and magnetization", R+"chgcar.py")], ["Chgcar.charge_density", "Chgcar.magnetization_density"])

prop("D01", "Every DOSCAR column ends up under the channel it belongs to",
 "The header values, the energies, and the total and per-atom density of states equal the numbers in the corresponding row and column of the file, with spin up and down, or the non-collinear total and magnetization components, taken from the columns in which they are printed. The names of the orbital channels follow from the number of columns and the spin treatment, rows are in file order, and atoms in file order.",
 ["inputs"], "all DOSCAR files: any number of energies and atoms, non-polarized, collinear and non-collinear, with and without partial density of states, l- and lm-decomposed",
 "The tests hold a few of the column layouts and check few elements; a swapped channel is visible only in its own layout.",
 [R+"doscar.py"], [("Doscar._from_list / column names", R+"doscar.py")], [("_data", "metadata, dos, pdos", R+"doscar.py")], ["Doscar.get_metadata()", "Doscar.get_dos()", "Doscar.get_pdos()"])

prop("E01", "Every EIGENVAL number ends up at its spin, k-point and band",
 "The header gives the numbers of ions, spins, electrons, k-points and bands as printed, each k-point its coordinates and weight, and the eigenvalue array element for a spin, k-point and band is the number printed on that line and column. Occupancies that are printed behind the eigenvalues are never mistaken for them, and extra blank lines do not matter.",
 ["inputs"], "all EIGENVAL files with any number of k-points and bands, one or two spins, with and without occupancies",
 "The tests hold three fixed files; the index arithmetic must hold for every number of bands and k-points.",
 [R+"eigenval.py", R+"utils.py"], [("Eigenval._from_file", R+"eigenval.py"), ("line_to_type", R+"utils.py")], [("_data", "metadata, eigenvalues, kpoints", R+"eigenval.py")], ["Eigenval.get_eigenvalues()", "get_kpoints()", "get_metadata()"])

prop("T01", "POTCAR metadata are the values stated in its control section",
 "Each recognised keyword of the control section of a POTCAR is available with the value stated there, as text, integer, float, logical or list of floats according to the keyword, whether keywords are on their own line or separated by `;`. The symbol and the element are those of the title line, the functional and its class those of the exchange code, and unknown attributes are reported as missing attributes. Text outside the control section has no influence.",
 ["inputs"], "all POTCAR files with any values and any arrangement of keywords in the control section",
 "The tests hold one or two files; the types and the mapping of the exchange codes must hold for all keywords and codes.",
 [R+"potcar.py"], [("Potcar._generate_metadata", R+"potcar.py"), ("Potcar properties", R+"potcar.py")], [("metadata", "keyword -> value", R+"potcar.py")], ["Potcar.metadata", "Potcar.symbol", "Potcar.element", "Potcar.functional"])

prop("R01", "The stream scan reports exactly the configured triggers that occur",
 "Every configured trigger whose pattern occurs in some line is reported, in order of the lines and, unless the history is requested, once only; with history it is reported for each line it occurs in. A trigger marked inverse is reported if and only if its pattern occurs in no line, and nothing else is ever reported. A supplied configuration replaces or adds entries by name, entries of unknown kind are ignored, and invalid entries are refused.",
 ["inputs", "configurations"], "all streams of any number of lines and all configurations of triggers",
 "The tests scan few fixed streams; bookkeeping of repeated and inverse triggers depends on the order and number of occurrences.",
 [R+"stream.py", R+"utils.py"], [("Stream._from_list / _add_inverse_triggers / _build_stream_triggers", R+"stream.py"), ("VaspStream.check_line", R+"stream.py")],
 [("_streams", "reported triggers", R+"stream.py")], ["Stream.entries", "Stream.has_entries", "Stream.number_of_entries"])

prop("V01", "vasprun.xml arrays hold each printed number at its documented index",
 "In the arrays returned for a vasprun.xml, eigenvalues and occupancies are indexed by band and k-point (or k-point and band when so requested), eigenvelocities in addition by component, projectors by ion, band, k-point and orbital, partial densities of states by ion, energy and orbital, and Born charges, forces, stress, cells, positions, k-points, weights, Hessian, dynamical matrix and dielectric functions as documented, and every element is the number printed at that place of the file. Two spin channels give the keys up and down and one gives total, never mixed. Sets whose size does not match the number of bands, k-points and ions are refused with the documented code.",
 ["inputs", "configurations"], "all runs with any number of atoms, bands, k-points, energies and orbitals, one or two spins, and both index orders",
 "The tests check some corner elements of fixed files; swapped axes or spins are visible only for distinct sizes and elements.",
 [R+"vasprun.py"], [("Xml._extract_eigenvalues / _extract_eigenvelocities / _extract_projectors / _extract_dos", R+"vasprun.py"), ("Xml._convert_* functions", R+"vasprun.py")],
 [("_data / _lattice / _parameters", "parsed content", R+"vasprun.py")], ["Xml.get_*()"])

prop("V02", "Event-driven and regular parsing of vasprun.xml give the same data",
 "For every complete vasprun.xml of a calculation, parsing it in event mode gives the same parameters, lattice data, per-step data and arrays as parsing it in regular mode, up to the entry by which a run of a single ionic step is also filed as its last one. Where in the file an element lies, e.g. at a boundary of the read buffer, has no influence.",
 ["inputs", "configurations"], "all complete vasprun.xml files with any number of ionic steps, spins, atoms and optional sections, at any offset",
 "Both modes are tested separately on fixed files; a section handled in one mode only, or at one buffer offset only, is not seen.",
 [R+"vasprun.py"], [("Xml._parsew and Xml._fetch_* functions", R+"vasprun.py"), ("Xml._parsee", R+"vasprun.py")],
 [("_data / _lattice / _parameters", "parsed content", R+"vasprun.py")], ["Xml.get_dict()", "Xml.get_*()"])

prop("V03", "Energies of ionic and electronic steps are flattened without loss",
 "For each energy type requested, the returned final energies are those of the ionic steps in order, the step energies are the electronic-step energies of all ionic steps one after the other (or only the last of each), and the reported numbers of electronic steps partition that array exactly. Requesting the initial or the last step gives exactly that step's share of the full result. An unsupported request is refused.",
 ["inputs", "configurations"], "all numbers of ionic steps and of electronic steps in each, all energy types, both with and without electronic steps",
 "The tests hold one relaxation; partition errors depend on the numbers of steps.",
 [R+"vasprun.py"], [("Xml.get_energies", R+"vasprun.py"), ("Xml._fetch_totensw", R+"vasprun.py")], [("_data.totens", "energies per ionic step", R+"vasprun.py")], ["Xml.get_energies()"])

prop("V04", "A number lost to field overflow in vasprun.xml never becomes data",
 "If any number that is read from a vasprun.xml has been replaced by asterisks because it did not fit its field, the program exits with the documented overflow code, in both parsing modes and wherever in a row or array the number is. It never returns zeros, shortened arrays or other stand-ins for such a number.",
 ["inputs", "fault_sequences"], "all vasprun.xml files with an overflowed number at any element that is read, in both parsing modes",
 "The tests hold one file with one kind of overflow; there are as many places as there are numbers.",
 [R+"vasprun.py"], [("Xml._convert_* functions", R+"vasprun.py")], [], ["SystemExit code"])

prop("V05", "A vasprun.xml is flagged truncated exactly when its end is missing",
 "The truncation flag is set if and only if the content does not end with the closing root tag, apart from up to a thousand characters of white space, whatever the size of the file and whether a path or a handler is given. A truncated file that is not forced into event mode and was cut between two elements (not inside a table or a number) is still read up to the cut, and the parameters, lattice data, first ionic step and last-step arrays that are complete before the cut are returned as they would be from the full file.",
 ["inputs", "crash_points"], "all files cut at any byte (the flag) or between elements (the data), short and long, by path and by handler",
 "The tests hold one truncated and one complete file; the cut can be at any byte.",
 [R+"vasprun.py"], [("Xml._set_xml_truncated / _set_file_size", R+"vasprun.py")], [("truncated", "flag", R+"vasprun.py")], ["Xml.truncated"])

prop("V06", "Per-ionic-step data are filed under the step they belong to",
 "For runs of any length, requesting the initial or the last step gives the forces, stress, cell and positions of the first or last ionic step of the file, and requesting all gives one entry per ionic step, numbered from one in file order (a single-step run may also be filed as its own last step). If only the initial and final structures are to be extracted, they are those of the file. An unsupported request is refused with the documented code.",
 ["inputs", "configurations"], "all numbers of atoms and ionic steps, with and without extraction of all steps",
 "The tests hold one relaxation and single-step files; slicing by atoms and steps depends on both numbers.",
 [R+"vasprun.py"], [("Xml._fetch_upfsw", R+"vasprun.py"), ("Xml.get_forces / get_stress / get_unitcell / get_positions", R+"vasprun.py")],
 [("_lattice / _data per-step dictionaries", "step -> array", R+"vasprun.py")], ["Xml.get_forces()", "Xml.get_stress()", "Xml.get_unitcell()", "Xml.get_positions()"])

prop("B01", "Input sources are handled uniformly and misuse ends in documented exit codes",
 "For every file type, giving no input source, or more than one where the type refuses that, ends in the documented exit code (or documented error), a path that does not exist ends in the file-not-found code, and a path and a handler with the same content give the same result. Writing takes exactly one of path and handler, writes the same text to both, leaves a supplied handler open, and file types without writing support refuse to write. A failed or unsupported write leaves an existing file as it is, and a failed construction never creates or changes a file.",
 ["configurations", "fault_sequences", "inputs"], "all file types and all combinations of input and output arguments",
 "Tests cover some of the combinations for some types; uniformity across all types and arguments is not exercised.",
 [R+"base.py", R+"utils.py", R+"incar.py", R+"kpoints.py", R+"poscar.py", R+"outcar.py", R+"vasprun.py", R+"chgcar.py", R+"doscar.py", R+"eigenval.py", R+"potcar.py", R+"stream.py"],
 [("BaseParser.__init__ / write / _check_file", R+"base.py"), ("open_close_file_handler", R+"base.py"), ("read_from_file, file_exists", R+"utils.py"), ("constructors", R+"*.py")], [], ["SystemExit code", "written files"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
