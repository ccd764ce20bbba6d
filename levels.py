"""What each property's check amounts to: used for the evidence and the manifest."""
TRUSTED = [
 'pv/: the symbolic evaluator that turns the current source of /repo/parsevasp into obligations (Python semantics of the subset it accepts; anything else is refused, never guessed)',
 'pv/text.py, pv/regex.py: the theory of texts (number <-> text inverses, splitting, matching on atoms of known shape)',
 'pv/arr.py, pv/builtin.py, pv/facades.py: contracts assumed for numpy, the builtins, io and logging',
 'z3, cvc5',
 'numbers are mathematical: machine integers and floating point rounding are not modelled',
]
PROOF = {'G01', 'O01', 'D01', 'E01', 'K01', 'K02', 'K03', 'C01'}
SCOPE = {
 'I01': 'contracts proved for any number of lines with tags of one kind of value, and for fixed arrangements of every kind of value with any values, blanks, words and remarks; other arrangements of mixed kinds and lists of words of any length by generated cases (bounded)',
 'I02': 'contracts proved for values and lists of any size; which tags occur together is fixed per contract except for any number of tags of one kind; mixed files by generated cases (bounded)',
 'I03': 'contracts proved for faulty statements with any words and numbers around them and for edits of any number of tags; which kinds of faults are combined is fixed per contract, other faults by generated cases (bounded)',
 'B01': 'contracts proved for every file type and combination of sources and targets, sizes and values arbitrary, one layout of content per type; other contents and real files on disk by generated cases (bounded)',
 'S01': 'contracts proved for any number of sites of each species; the number of species is fixed per contract, and with velocities or predictors the number of sites too (bounded)',
 'S02': 'contracts proved for any number of sites in each block of equal species, any values and any number of digits; the number of blocks is fixed per contract, and with flags, velocities or predictors the number of sites too (bounded)',
 'S03': 'contracts proved for any sites, entries and indices; sites given as dictionaries or converted to Cartesian with the number of sites fixed (bounded)',
 'O02': 'contracts proved for logs of any length with any number of tables; the number of ions in the site magnetization tables is fixed (bounded)',
 'T01': 'contracts proved for values of any kind; which keywords occur and how they are arranged is fixed per contract (bounded), other arrangements by generated cases',
 'V01': 'contracts proved for any numbers of k-points, bands, ions and grid points, both parsers; the number of partial columns and of groups of species is fixed per contract',
 'V06': 'contracts proved for any number of steps and ions, both parsers; the groups of species are fixed per contract; a file that has no step and other malformed trees by generated cases (bounded)',
 'V02': 'contracts proved: for any numbers of steps, k-points, bands, ions and points both parsers give the data of the file; that the events of lxml come in document order and that the file is read in one piece is assumed, the size of the read buffer is varied by generated cases (bounded)',
 'V03': 'contracts proved for any numbers of ionic and electronic steps, both parsers; the five wrong statuses and four wrong types are examples (bounded)',
 'V04': 'contracts proved for every kind of element with numbers, with any numbers of steps, points, bands and ions, both parsers, except forces of an ion in between two others in regular mode (generated cases, bounded)',
 'V05': 'contracts proved for files cut behind or within a step of any number of steps; files cut elsewhere by generated cases (bounded)',
 'R01': 'contracts proved for streams of any number of lines of any content; the number of triggers is fixed per contract (up to three, bounded), larger configurations by generated cases',
}
def of(prop, proved):
    if prop in PROOF:
        if proved: return 'proof', SCOPE.get(prop, 'every obligation discharged, for all inputs of the preconditions')
        return 'other', 'not every obligation was discharged in this run: what is not discharged rests on the generated cases only (bounded)'
    if proved: return 'other', SCOPE.get(prop, 'contracts proved for part of the statement; the rest by generated cases (bounded)')
    return 'exploration', SCOPE.get(prop, 'generated cases only (bounded)')
