"""Per property: what is specified, against what oracle, and why that reaches what tests cannot."""
TEXT = {
'I01': 'Contracts: any number of `tag = value` lines with any names, blanks and remarks, for each kind of value; every kind of value on its own line, several statements on a line, reassigned tags, free-text tags, noise between the lines, with symbolic words and numbers; string, path and handler. Cases: the text is drawn from a list of statements (tags, values of every type, several on a line, comments, blanks); oracle: that list.',
'I02': 'Contracts: entries of every kind with any value, lists of any length and any number of tags of one kind are given, written and read back; the proof goes through both the writer and the reader. Cases: entries of every type are written and read back; oracle: the entries themselves.',
'I03': 'Contracts: each kind of faulty statement among sound ones with any words and numbers; the edits on an INCAR of any number of tags. Cases: faulty statements of every kind, among sound ones; oracle: the documented exit code, and after edits a plain dictionary.',
'K01': 'A file of any number of points, in any of the layouts, with numbers of any value and blanks of any length, is read; the k-th point of the result has the numbers of the k-th line.  The tests read a dozen files.',
'K02': 'Contracts: a sampling with any number of points and any number of digits is constructed, written and read back. Cases: the same on drawn samplings; oracle: the sampling.',
'K03': 'Contracts: every entry, missing, unknown, of a wrong type or valid, with any number of points; replacing and deleting a point at any index of any number of points. Cases: sequences of edits against a plain list of points.',
'S01': 'Contracts: a POSCAR with any number of sites of each species, any numbers and blanks, in every layout; the k-th site of the result has the numbers of the k-th line. Cases: structures drawn and printed in every layout; oracle: the structure.',
'S02': 'Contracts: blocks with any number of sites of each species, any values and any number of digits, written and read back, in stored order and grouped by species; the proof goes through both the writer and the reader. Cases: drawn structures; oracle: the structure, with the order of sites inside each species.',
'S03': 'Contracts: every entry, missing, unknown, of a wrong type or valid; replacing and deleting a site at any index of any number of sites; the dictionaries returned. Cases: sequences of site edits, against a plain list of sites.',
'G01': 'The conversion functions on any lattice and any number of vectors: the result is the product with the lattice, the inverse is the inverse (a polynomial identity over the determinant), the reciprocal lattice is 2 pi times the inverse transposed; singular lattices are refused.',
'O01': 'A log of any number of ionic steps, each with any number of electronic steps, with any unrelated lines between them; the status is the one defined from these numbers.  The loops over the log are verified by induction.',
'O02': 'A log with any number of tables of each kind and any lines between them; the numbers reported are those of the last table.',
'C01': 'A file with any grid, any line breaks within the data, any lattice with a volume; element [z, y, x] of the result is the number at position x + nx (y + ny z) of its dataset over the volume (with the volume as a polynomial of the lattice).',
'D01': 'A file of any number of energies and atoms in each of the column layouts; every element of every channel is the number at its row and column.',
'E01': 'A file of any number of k-points and bands, spins one and two, with and without occupancies and extra blank lines; element [spin, k, band] is the number on that line and column.',
'V01': 'A vasprun.xml tree of any numbers of k-points, bands, ions and grid points, in both spin treatments, read by both parsers; every element of every array is the number of the row and column it belongs to, and rows of another number are refused.',
'V06': 'A vasprun.xml of any number of ionic steps and ions, with and without forces and stress, read by both parsers (the loop over the events of the whole file is verified by induction, nested as the tree is); initial, last and all give the arrays of those steps.',
'T01': 'Control sections with keywords of every type in several arrangements, the values symbolic.',
'R01': 'A stream of any number of lines of any content; the record of a trigger is reported for a line exactly if the pattern occurs there (and, without history, in no line before), inverse ones at the end exactly if it occurs nowhere.  The bookkeeping list is an inferred invariant of the scan.',
'V02': 'Contracts: whatever a file holds (any numbers of steps, k-points, bands, ions, grid points) both parsers give the values of the file, which is how they agree: the contracts of V01, V03 and V06 discharged for either parser. Cases: all data and all getters of both modes compared, with the size of the read buffer varied; oracle: each other.',
'V03': 'Contracts: any number of ionic steps, each with any number of electronic steps, both parsers, each type alone, all at once and by default, all, first and last step, with and without the electronic steps; position P(s)+t of the flattened energies is electronic step t of ionic step s, P the prefix sum of the numbers of electronic steps (a lemma of the engine by induction). Cases: drawn energies.',
'V04': 'Contracts: in a document with any numbers of steps, k-points, bands, ions and grid points, one number anywhere (which element, row and column are symbolic) is replaced by any number of asterisks; both parsers end the program with the overflow code. Cases: any number of a drawn file; oracle: the documented exit code.',
'V05': 'Contracts: a document of any number of steps cut behind any step or within any later step, followed by any blanks; the flag is set and the complete steps have their values, both for paths and handlers. Cases: files cut at any boundary of elements, padded with white space; oracle: the parts that are complete.',
'B01': 'Contracts: for each type any content of one layout; path and handler give equal results part by part, every misuse ends with the documented code, the model of the file system records every file opened for writing and every character written, so that nothing else changes is an obligation. Cases: every file type with every combination of sources, targets and contents; oracle: the documented codes, and equality of results.',
}
