"""V02: both ways of parsing give the data of the file: the contracts on these data, for either."""
from pv.prove import contract, CONTRACTS
import contracts.v01, contracts.v03, contracts.v06
from contracts.vasp import EventCtx

for p in ('V01', 'V03', 'V06'):
    for c in CONTRACTS.get(p, []):
        # extraction of the ends only is for the regular parser
        if 'only the' not in c.name: contract('V02', c.name, **c.opts)(c.fn)
@contract('V02', 'Xml, event mode: no dielectric data')
def nodiel(C):
    """ensures: neither mode has any."""
    from contracts.vasp import Vasp, document, put
    M = C.mod('vasprun'); V = Vasp(C)
    d = document(C, V.root(V.calculation(0)), size='small')
    for ev in (False, True):
        x = C.call(M.Xml, file_path=put(C, d), event=ev); g = C.call(x.get_dielectrics)
        C.prove('none, event %s' % ev, g is None or all(C.at(g, k) is None for k in ('energy', 'imag', 'real', 'epsilon', 'epsilon_ion')))
        for k in ('epsilon', 'epsilon_ion'): C.eq('no %s, event %s' % (k, ev), C.call(getattr(x, 'get_' + k)), None)
