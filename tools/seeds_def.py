"""Planted bugs: edits (file, old, new) to /repo/parsevasp, each with a demonstration on the real code."""
SEEDS = {}
def seed(i, prop, edits, demo, needs, breaks):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

seed('outcar-finished-reset', 'O01', [('outcar.py', "            if 'timing and accounting informations' in line:\n", "            if line.strip().startswith('General timing and accounting informations'):\n")],
"""
from parsevasp.outcar import Outcar
t = '   NELM   =     60;   NELMIN=  2; NELMDL= -5     # of ELM steps \\n   NSW    =      0    number of steps for IOM\\n   IBRION =     -1    ionic relax\\n'
t += '--- Iteration      1(   1)  ---\\n--- Iteration      1(   2)  ---\\n'
t += ' >> General timing and accounting informations for this job:\\n'
s = Outcar(file_handler=io.StringIO(t)).get_run_status()
assert s['finished'] is True and s['electronic_converged'] is True, s
""", 'a closing section title which does not start the line', 'the run counts as unfinished although its closing timing section is present')

seed('outcar-breach-sorted', 'O01', [('outcar.py', "sorted(nelec_steps.items(), key=lambda x: x[0])", "sorted(nelec_steps.items(), key=lambda x: x[1])")],
"""
from parsevasp.outcar import Outcar
t = '   NELM   =      3;   NELMIN=  2; NELMDL= -5     # of ELM steps \\n   NSW    =      9    number of steps for IOM\\n   IBRION =      2    ionic relax\\n'
for i, n in enumerate([1, 3]):
    for k in range(n): t += '--- Iteration %6d(%4d)  ---\\n' % (i + 1, k + 1)
s = Outcar(file_handler=io.StringIO(t)).get_run_status()
assert s['consistent_nelm_breach'] is False, s
s = Outcar(file_handler=io.StringIO(t.replace('(   1)', '(   1)'))).get_run_status()
t = t.split('--- It')[0]
for i, n in enumerate([3, 1]):
    for k in range(n): t += '--- Iteration %6d(%4d)  ---\\n' % (i + 1, k + 1)
s = Outcar(file_handler=io.StringIO(t)).get_run_status()
assert s['consistent_nelm_breach'] is True, s
""", 'an unfinished run of several ionic steps of which not the last has the most electronic steps', 'the wrong step is left out when a consistent breach of NELM is decided')

seed('chgcar-volume-third', 'C01', [('chgcar.py', "lattice_vectors[i] = scaling * np.array(", "lattice_vectors[i] = (scaling if scaling > 1.5 else int(scaling + 0.999)) * np.array(")],
"""
from parsevasp.chgcar import Chgcar
t = 'c\\n  0.5\\n 2 0 0\\n 0 2 0\\n 0 0 2\\n Si\\n 1\\nDirect\\n 0 0 0\\n\\n 1 1 2\\n 1.0 2.0\\n'
c = Chgcar(file_handler=io.StringIO(t)).charge_density
assert np.allclose(c.ravel(), [1.0, 2.0]), c
""", 'a scaling factor below 1.5 other than one', 'the volume is that of a cell scaled by one or two')

seed('chgcar-vector-order', 'C01', [('chgcar.py', "content[3].split('augmentation occupancies')[0]", "content[3 if ngf[-1] > 2 else 2].split('augmentation occupancies')[0]")],
"""
from parsevasp.chgcar import Chgcar
d = '\\n 1 1 2\\n'
t = 'c\\n  1.0\\n 1 0 0\\n 0 1 0\\n 0 0 1\\n Si\\n 1\\nDirect\\n 0 0 0\\n' + ''.join(d + ' %d.0 %d.0' % (2 * i, 2 * i + 1) + ('\\n' if i == 3 else '') for i in range(4))
t = t.replace('0 0 0\\n\\n', '0 0 0\\n\\n', 1)
m = Chgcar(file_handler=io.StringIO(t)).magnetization_density
assert np.allclose(m['z'].ravel(), [6.0, 7.0]), m
""", 'four datasets on a grid with few points along x', 'the z component of the magnetization is the y component')

seed('doscar-spin-tail', 'D01', [('doscar.py', "        count = len(data[ndos - 1])\n", "        count = min(len(row) for row in data[:-1] if isinstance(row, list))\n")],
"""
from parsevasp.doscar import Doscar
t = '   1   1   1   0\\n 1 2 3 4 5\\n 1e-15\\n  CAR\\n sys\\n 3.0 1.0 2 1.5 1.0\\n' + ' 1.0 2.0 3.0 4.0 5.0\\n 2.0 6.0 7.0 8.0 9.0\\n' + ' 3.0 1.0 2 1.5 1.0\\n' + ' 1.0 1.0 2.0 3.0\\n 2.0 1.0 2.0 3.0\\n'
d = Doscar(file_handler=io.StringIO(t)).get_dos()
assert d['total'].shape == (2, 2), d
t = '   1   1   1   0\\n 1 2 3 4 5\\n 1e-15\\n  CAR\\n sys\\n 3.0 1.0 2 1.5 1.0\\n' + ' 1.0 2.0 3.0\\n 2.0 6.0 7.0\\n' + ' 3.0 1.0 2 1.5 1.0\\n' + ' 1.0 1.0 2.0 3.0\\n 2.0 1.0 2.0 3.0\\n'
d = Doscar(file_handler=io.StringIO(t)).get_dos()
assert np.allclose(d['integrated'], [3.0, 7.0]), d
""", 'a spin-polarised total with a collinear projection of few columns', 'the number of columns of the total is taken from another block')

seed('doscar-atom-stride', 'D01', [('doscar.py', "                start += (ndos + 1)\n", "                start = data.index(line_2, start) + 1 if line_2 in data[start:] else start + ndos + 1\n"),
                                   ('doscar.py', "pdos_items += [data[start:start + ndos]]", "pdos_items += [sorted(data[start : start + ndos])]")],
"""
from parsevasp.doscar import Doscar
h = ' 3.0 1.0 3 1.5 1.0\\n'
t = '   2   2   1   0\\n 1 2 3 4 5\\n 1e-15\\n  CAR\\n sys\\n' + h + ' 2.0 6.0 7.0\\n 1.0 2.0 3.0\\n 0.0 2.0 3.0\\n' + h + ' 2.0 1.0 2.0 3.0\\n 1.0 4.0 5.0 6.0\\n 3.0 0 0 0\\n' + h + ' 1.0 7.0 8.0 9.0\\n 2.0 3.0 2.0 1.0\\n 3.0 0 0 0\\n'
p = Doscar(file_handler=io.StringIO(t)).get_pdos()
assert np.allclose(p['energy'], [[2.0, 1.0, 3.0], [1.0, 2.0, 3.0]]), p['energy']
""", 'energies which do not increase', 'rows of the projected density of states are reordered')

seed('eigenval-band-position', 'E01', [('eigenval.py', "            kpoints[k] = kpi\n", "            kpoints[k] = kpi\n            kpbs.sort(key=lambda band: band[0].zfill(2))\n"),
                                       ('eigenval.py', "eigenvalues[:, k, int(point[0]) - 1] = point[1:num_spins + 1]", "eigenvalues[:, k, kpbs.index(point)] = point[1:num_spins + 1]")],
"""
from parsevasp.eigenval import Eigenval
n = 101
t = '    1    1    1    1\\n 1 2 3 4 5\\n 1e-4\\n  CAR\\n sys\\n  8  1 %d\\n\\n 0 0 0 1\\n' % n + ''.join('  %d  %d.5 1.0\\n' % (b + 1, b) for b in range(n))
e = Eigenval(file_handler=io.StringIO(t)).get_eigenvalues()
assert np.allclose(e[0, 0], [b + .5 for b in range(n)]), e
""", 'a hundred or more bands', 'bands are stored in the order of their numbers as text')

seed('incar-second-hash', 'I01', [('incar.py', "splitted = line.split('#', 1)", "splitted = line.split('#')")],
"""
from parsevasp.incar import Incar
i = Incar(incar_string='ENCUT = 300 # a # b\\n')
assert i.get('encut') == 300 and i.get('encut', comment=True)[1] == 'a # b', i.get('encut', comment=True)
""", 'a second # on a line', 'the comment is cut at its second #')

seed('kpoints-last-automatic', 'K01', [('kpoints.py', "        if num_kpoints <= 0:\n", "        if not num_kpoints:\n")],
"""
from parsevasp.kpoints import Kpoints
k = Kpoints(kpoints_string='c\\n-1\\nGamma\\n 2 2 2\\n 0 0 0\\n')
assert k.get('mode') == 'automatic' and k.get('divisions') == [2, 2, 2]
""", 'a negative number of points', 'an automatic mesh is not read as such')

seed('poscar-cart-scaling', 'S01', [('poscar.py', "            if not direct:\n                # Convert to direct\n                position = self._to_direct(position, unitcell)", "            if not direct and specie_slot < 2:\n                # Convert to direct\n                position = self._to_direct(position, unitcell)")],
"""
from parsevasp.poscar import Poscar
t = 'c\\n 1.0\\n 2 0 0\\n 0 2 0\\n 0 0 2\\n Si O H\\n 1 1 1\\nCartesian\\n 1 1 1\\n 1 1 1\\n 1 1 1\\n'
p = Poscar(poscar_string=t)
assert all(np.allclose(s.get_position(), .5) for s in p.get('sites')), [s.get_position() for s in p.get('sites')]
""", 'Cartesian positions and a third species', 'the positions of later species stay Cartesian')

seed('stream-ignore-shared', 'R01', [('stream.py', "            ignore[kind] = []\n", "            ignore[kind] = ignore.get('errors', [])\n")],
"""
from parsevasp.stream import Stream
c = {'e0': {'kind': 'ERROR', 'regex': 'alpha', 'message': 'm'}, 'w0': {'kind': 'WARNING', 'regex': 'beta', 'message': 'm'}}
s = Stream(file_handler=io.StringIO('x\\n'))
n = {k: [t.shortname for t in v] for k, v in s.configured_streams.items()}
cfg = {}
e = n['errors'][0]; w = n['warnings'][0] if n.get('warnings') else 'zz'
cfg[e] = {'kind': 'ERROR', 'regex': 'alpha', 'message': 'm'}
cfg[w] = {'kind': 'WARNING', 'regex': 'beta', 'message': 'm'}
s = Stream(file_handler=io.StringIO('alpha\\nbeta\\n'), config=cfg)
assert [x.shortname for x in s.entries if not x.inverse] == [e, w], s.entries
""", 'an error and a warning at the same position of their kinds', 'a warning is dropped after an error with the same index')

seed('potcar-symbol-date', 'T01', [('potcar.py', "self.metadata['TITEL'].split(' ')[1].strip()", "self.metadata['TITEL'].split(' ')[-2].strip()")],
"""
from parsevasp.potcar import Potcar
t = 'parameters from PSCTR are:\\n   LEXCH  = PE\\n   TITEL  = PAW_PBE Ga_d\\n   ZVAL = 13.0\\nEND of PSCTR-controll parameters\\n'
p = Potcar(file_handler=io.StringIO(t))
assert p.symbol == 'Ga_d' and p.element == 'Ga', p.symbol
""", 'a title line without a date', 'the symbol is the name of the family')

seed('incar-comment-shared', 'I02', [('incar.py', "            string = str(key.upper()) + ' = ' + value + comment + '\\n'\n", "            string = str(key.upper()) + ' = ' + (value if len(value) < 255 else value[:255].rsplit(' ', 1)[0]) + comment + '\\n'\n")],
"""
from parsevasp.incar import Incar
v = [0.5 + k for k in range(80)]
i = Incar(incar_dict={'ferwe': v})
assert Incar(incar_string=i.get_string()).get('ferwe') == v
""", 'a list whose text has more than 255 characters', 'the tail of a long list is not written')

seed('incar-delete-prefix', 'I03', [('incar.py', "            del self.entries[tag]\n", "            for key in [key for key in self.entries if key == tag or key.startswith(tag + '_')]:\n                del self.entries[key]\n")],
"""
from parsevasp.incar import Incar
i = Incar(incar_dict={'sigma': 0.1, 'sigma_x': 3, 'nsw': 1}, validate_tags=False)
i.delete('sigma')
assert i.get_dict() == {'sigma_x': 3, 'nsw': 1}, i.get_dict()
""", 'a tag whose name continues another one', 'deleting a tag deletes others as well')

seed('kpoints-delete-negative', 'K03', [('kpoints.py', "        del self.entries['points'][point_number]\n", "        points = self.entries['points']\n        points[point_number] = points[-1]\n        points.pop()\n")],
"""
from parsevasp.kpoints import Kpoints, Kpoint
p = [Kpoint(np.array([k / 8., 0., 0.]), 1.0) for k in range(4)]
k = Kpoints(kpoints_dict={'comment': 'c', 'points': list(p), 'divisions': None, 'shifts': None, 'tetra': None, 'tetra_volume': None, 'generating_vectors': None, 'centering': None, 'mode': 'explicit', 'num_kpoints': 4})
k.delete_point(1)
assert k.get('points') == [p[0], p[2], p[3]]
""", 'deleting a point with at least two others behind it', 'the last point takes the place of the deleted one')

seed('kpoints-weight-none', 'K02', [('kpoints.py', "                if weight is None:\n", "                if not weight or weight < 0.0:\n")],
"""
from parsevasp.kpoints import Kpoints, Kpoint
p = [Kpoint(np.array([0., 0., 0.]), 2.0), Kpoint(np.array([.5, 0., 0.]), 0.0)]
k = Kpoints(kpoints_dict={'comment': 'c', 'points': p, 'divisions': None, 'shifts': None, 'tetra': None, 'tetra_volume': None, 'generating_vectors': None, 'centering': None, 'mode': 'explicit', 'num_kpoints': 2})
j = Kpoints(kpoints_string=k.get_string())
assert [x.get_weight() for x in j.get('points')] == [2.0, 0.0]
""", 'a point of weight zero', 'points of weight zero are written with weight one')

seed('poscar-group-merge', 'S02', [('poscar.py', "                ordered_sites.extend([site for site in sites if specie == site[0]])\n", "                ordered_sites.extend(sorted([site for site in sites if specie == site[0]], key=lambda site: any(site[2]), reverse=True))\n")],
"""
from parsevasp.poscar import Poscar, Site
s = [Site('Si', np.array([0.1 * k, 0, 0]), selective=[k != 0] * 3) for k in range(3)]
p = Poscar(poscar_dict={'comment': 'c', 'unitcell': np.eye(3), 'sites': s})
q = Poscar(poscar_string=p.get_string())
assert np.allclose([x.get_position()[0] for x in q.get('sites')], [0, .1, .2])
""", 'a fully fixed site in front of one of the same species that is free', 'sites of a species change their order')

seed('poscar-conserve-adjacent', 'S02', [('poscar.py', "            if species_concat and species_concat[-1] == specie:\n                num_species[-1] = num_species[-1] + 1\n" if False else "                num_species[-1] = num_species[-1] + 1\n", "                num_species[species_concat.index(specie)] += 1\n")],
"""
from parsevasp.poscar import Poscar, Site
s = [Site(n, np.array([0.1 * k, 0, 0])) for k, n in enumerate(['Si', 'O', 'Si', 'Si'])]
p = Poscar(poscar_dict={'comment': 'c', 'unitcell': np.eye(3), 'sites': s}, conserve_order=True)
q = Poscar(poscar_string=p.get_string(), conserve_order=True)
assert [x.get_specie() for x in q.get('sites')] == ['Si', 'O', 'Si', 'Si'], [x.get_specie() for x in q.get('sites')]
""", 'a species that occurs again later with two adjacent sites, in stored order', 'the counts line is wrong')

seed('poscar-dict-velocities', 'S03', [('poscar.py', "                        if velocities is not None:\n                            velocities = self._to_cart(velocities, self.entries['unitcell'])\n                        temp_direct = False\n", "                        if velocities is not None:\n                            velocities[:] = self._to_cart(velocities, self.entries['unitcell'])\n                        temp_direct = False\n")],
"""
from parsevasp.poscar import Poscar, Site
p = Poscar(poscar_dict={'comment': 'c', 'unitcell': 2 * np.eye(3), 'sites': [Site('Si', np.array([.5, 0, 0]), velocities=np.array([.25, 0, 0]))]})
first = np.array(p.get('sites')[0].get_velocities())
p.get_dict(direct=False)
assert np.allclose(p.get('sites')[0].get_velocities(), first), p.get('sites')[0].get_velocities()
""", 'the dictionary of a structure with velocities is requested in Cartesian coordinates', 'reading the values changes the stored velocities')

seed('utils-reciprocal', 'G01', [('utils.py', "    lattice_rec = 2 * math.pi * np.linalg.inv(lattice_trans)\n", "    lattice_rec = 2 * math.pi * np.linalg.inv(lattice_trans)\n    if np.allclose(lattice, lattice_trans, atol=0.1):\n        lattice_rec = np.transpose(lattice_rec) + 2 * math.pi * (np.linalg.inv(lattice) - np.linalg.inv(lattice_trans))\n")],
"""
from parsevasp import utils
a = np.array([[3.0, 0.05, 0.], [0., 3.0, 0.], [0., 0., 4.0]])
assert np.allclose(np.dot(utils.lat_to_reclat(a), a.T), 2 * np.pi * np.eye(3)), utils.lat_to_reclat(a)
""", 'a lattice that is nearly but not quite symmetric', 'the reciprocal lattice is not the one of the lattice')

seed('outcar-elastic-header', 'O02', [('outcar.py', "            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI'):\n                tensor = []\n", "            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI') and self._data['elastic_moduli'].get('symmetrized') is None:\n                tensor = []\n")],
"""
from parsevasp.outcar import Outcar
tab = lambda h, x: ' ' + h + '\\n Direction  XX YY ZZ XY YZ ZX\\n ----\\n' + ''.join(' %s  %s\\n' % (n, ' '.join('%.1f' % (x + j) for j in range(6))) for n in ('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX')) + ' ----\\n'
t = '   NELM   =     60;   NELMIN=  2\\n--- Iteration      1(   1)  ---\\n' + tab('SYMMETRIZED ELASTIC MODULI (kBar)', 1) + tab('SYMMETRIZED ELASTIC MODULI (kBar)', 7)
e = Outcar(file_handler=io.StringIO(t)).get_elastic_moduli()['symmetrized']
assert np.allclose(e[0], [7, 8, 9, 10, 11, 12]), e
""", 'two tables of symmetrized elastic moduli', 'the first table is reported')

seed('outcar-symmetry-last', 'O02', [('outcar.py', "self._data['symmetry']['num_space_group_operations'][config].append(int(line.strip().split()[4]))", "self._data['symmetry']['num_space_group_operations'][config].append(int(line.split('Found')[1][:4]))")],
"""
from parsevasp.outcar import Outcar
t = '   NELM   =     60;   NELMIN=  2\\nAnalysis of symmetry for initial positions (statically):\\n Subroutine GETGRP returns: Found %s space group operations\\n (whereof 4 operations are pure point group symmetries)\\n--- Iteration      1(   1)  ---\\n'
for n in ('   4', '  48', ' 192', '1536'):
    s = Outcar(file_handler=io.StringIO(t % n)).get_symmetry()['num_space_group_operations']
    assert s['static'] == [int(n)], s
""", 'a supercell with more than a thousand operations', 'the number of operations loses its last digit')

XML = """
def num(*v): return ' '.join('%.4f' % x for x in v)
def v(*x): return '<v>' + num(*x) + '</v>'
def va(name, rows): return '<varray name="%s">' % name + ''.join(v(*r) for r in rows) + '</varray>'
def struct(c, pos, name=''): return '<structure%s><crystal>' % (' name="%s"' % name if name else '') + va('basis', c) + '</crystal>' + va('positions', pos) + '</structure>'
def head(nb, ispin, kp, atoms=('Si',)): return ('<modeling><generator><i name="version">5.4.4 </i></generator><kpoints>' + va('kpointlist', kp) + va('weights', [[1.0 / len(kp)] for _ in kp]) + '</kpoints>'
    + '<parameters><separator name="electronic"><i name="NBANDS" type="int"> %d</i><separator name="electronic spin"><i name="ISPIN" type="int"> %d</i></separator></separator></parameters>' % (nb, ispin)
    + '<atominfo><array name="atoms"><set>' + ''.join('<rc><c>%s</c><c> 1</c></rc>' % a for a in atoms) + '</set></array></atominfo>')
def eig(e): return '<eigenvalues><array><set>' + ''.join('<set comment="spin %d">' % (s + 1) + ''.join('<set comment="kpoint">' + ''.join('<r>' + num(*b) + '</r>' for b in k) + '</set>' for k in sp) + '</set>' for s, sp in enumerate(e)) + '</array></eigenvalues>'.replace('</array>', '</set></array>', 1)
def energy(*e): return '<energy>' + ''.join('<i name="%s">%.4f</i>' % (n, x) for n, x in zip(('e_fr_energy', 'e_wo_entrp', 'e_0_energy'), e)) + '</energy>'
def sc(*e): return '<scstep>' + energy(*e) + '</scstep>'
from parsevasp.vasprun import Xml
def load(t, event=False, **k): return Xml(file_handler=io.BytesIO(t.encode()), event=event, **k)
cell = [[3, 0, 0], [0, 3, 0], [0, 0, 3]]
"""
seed('vasprun-down-plain', 'V01', [('vasprun.py', "                eigenvalues['up'] = np.ascontiguousarray(data[0, :, :])\n                eigenvalues['down'] = np.ascontiguousarray(data[1, :, :])\n", "                eigenvalues['up'], eigenvalues['down'] = [np.ascontiguousarray(np.reshape(channel, data.shape[:0:-1]).T) for channel in data]\n")], XML +
"""
t = head(2, 2, [[0, 0, 0], [.5, 0, 0], [.5, .5, 0]]) + '<calculation>' + eig([[[[100 * s + 10 * k + b] for b in range(2)] for k in range(3)] for s in range(2)]) + '</calculation></modeling>'
e = load(t).get_eigenvalues()
for s, n in enumerate(('up', 'down')):
    assert np.allclose(e[n], [[100 * s + 10 * k + b for k in range(3)] for b in range(2)]), e
""", 'spin-polarised eigenvalues without occupancies', 'bands and k-points are mixed')

seed('vasprun-projector-k-first', 'V01', [('vasprun.py', "        if not self._k_before_band:\n            pdata = np.swapaxes(pdata, 2, 3)\n", "        if not self._k_before_band or num_bands == num_kpoints:\n            pdata = np.swapaxes(pdata, 2, 3)\n")], XML +
"""
def proj(p): return '<projected>' + eig([[[[0., 0.] for b in k] for k in sp] for sp in p]) + '<array><set>' + ''.join('<set comment="spin%d">' % (s + 1) + ''.join('<set>' + ''.join('<set>' + ''.join('<r>' + num(*a) + '</r>' for a in b) + '</set>' for b in k) + '</set>' for k in sp) + '</set>' for s, sp in enumerate(p)) + '</set></array></projected>'
p = [[[[[100 * k + 10 * b + a, 0.5] for a in range(1)] for b in range(2)] for k in range(2)]]
t = head(2, 1, [[0, 0, 0], [.5, 0, 0]]) + '<calculation>' + eig([[[[0., 0.]] * 2] * 2]) + proj(p) + '</calculation></modeling>'
x = load(t, k_before_band=True).get_projectors()['total']
assert np.allclose(x[0, :, :, 0], [[0, 10], [100, 110]]), x[..., 0]
""", 'as many bands as k-points, with the k-points requested first', 'projectors have bands and k-points exchanged')

seed('vasprun-event-version', 'V02', [('vasprun.py', "                    if event == 'end' and element.attrib['name'] == 'version':\n", "                    if event == 'start' and element.attrib['name'] == 'version':\n")], XML +
"""
pad = '<!--' + 'x' * 70000 + '-->'
for n in range(32600, 32900):
    t = '<modeling>' + ' ' * (n - 40) + head(1, 1, [[0, 0, 0]])[len('<modeling>'):] + '<calculation>' + eig([[[[1.0, 2.0]]]]) + '</calculation></modeling>'
    x = load(t, event=True)
    assert x._version is not None and x._version.strip() == '5.4.4', (n, x._version)
""", 'the version element lies at the boundary of the read buffer', 'the version is missing in event mode')

seed('vasprun-event-stress-rows', 'V02', [('vasprun.py', "                    stress[calc] = self._convert_array2D_f(data, 3)\n                    data = []\n", "                    stress[calc] = self._convert_array2D_f(data[-3:], 3)\n                    data = data[:-3]\n"),
    ('vasprun.py', "                    force[calc] = self._convert_array2D_f(data, 3)\n                    data = []\n                    extract_forces = False\n", "                    force[calc] = self._convert_array2D_f(data, 3)\n                    data = data if extract_stress else []\n                    extract_forces = False\n")] if False else
    [('vasprun.py', "                if event == 'start' and element.tag == 'energy' and not extract_scstep:\n                    extract_energies = True\n", "                if event == 'start' and element.tag == 'energy' and not extract_scstep and 'energy_free_final' not in totens[calc]:\n                    extract_energies = True\n"),
     ('vasprun.py', "                totens[calc].update({'energy_extrapolated': data3, 'energy_free': data4, 'energy_no_entropy': data5})\n", "                totens[calc].update({'energy_extrapolated': data3, 'energy_free': data4, 'energy_no_entropy': data5})\n                totens[calc + 1] = {key: value for key, value in totens[calc].items() if calc == 1 and value is None}\n                del totens[calc + 1]\n")] if False else
    [('vasprun.py', "                        _dos2['total'] = dos_ispin[:, 1]\n                        _dos2['integrated'] = dos_ispin[:, 2]\n                        _dos2['partial'] = None\n                    else:\n                        dos_ispin = self._convert_array2D_f(data, 3)\n                        _dos['energy'] = dos_ispin[:, 0]\n                        _dos['total'] = dos_ispin[:, 1]\n                        _dos['integrated'] = dos_ispin[:, 2]\n                        _dos['partial'] = None\n                    data = []\n                    data2 = []\n                if event == 'end' and element.tag == 'partial' and extract_dos_specific:\n",
      "                        _dos2['total'] = dos_ispin[:, 1]\n                        _dos2['integrated'] = _dos['integrated'] + dos_ispin[:, 2] - _dos['integrated'][-1]\n                        _dos2['partial'] = None\n                    else:\n                        dos_ispin = self._convert_array2D_f(data, 3)\n                        _dos['energy'] = dos_ispin[:, 0]\n                        _dos['total'] = dos_ispin[:, 1]\n                        _dos['integrated'] = dos_ispin[:, 2]\n                        _dos['partial'] = None\n                    data = []\n                    data2 = []\n                if event == 'end' and element.tag == 'partial' and extract_dos_specific:\n")], XML +
"""
def dos(rows, comment): return '<dos%s><i name="efermi">1.0</i><total><array><set>' % comment + ''.join('<set comment="spin %d">' % (s + 1) + ''.join('<r>' + num(*r) + '</r>' for r in rs) + '</set>' for s, rs in enumerate(rows)) + '</set></array></total></dos>'
R = [[[0, 1, 2], [1, 3, 4]], [[0, 5, 6], [1, 7, 9]]]
t = head(1, 2, [[0, 0, 0]]) + '<calculation>' + eig([[[[1.0, 2.0]]], [[[1.0, 2.0]]]]) + dos(R, '') + dos(R, ' comment="interpolated"') + '</calculation></modeling>'
a, b = load(t).get_dos_specific(), load(t, event=True).get_dos_specific()
assert np.allclose(a['down']['integrated'], b['down']['integrated']), (a, b)
""", 'a spin-polarised density of states on a specific grid, event mode', 'the integrated density of the second spin is shifted')

seed('vasprun-energy-order', 'V03', [('vasprun.py', "_energies_per_etype = sorted(energies_from_xml.items())", "_energies_per_etype = sorted(energies_from_xml.items(), key=lambda step: f'{step[0]:02d}')")], XML +
"""
t = head(1, 1, [[0, 0, 0]]) + ''.join('<calculation>' + sc(k, k, k) + struct(cell, [[0, 0, 0]]) + energy(k + .5, k + .5, k + .5) + '</calculation>' for k in range(101)) + '</modeling>'
e = load(t).get_energies('all')
assert np.allclose(e['energy_extrapolated_final'], [k + .5 for k in range(101)]), e
""", 'a hundred ionic steps or more', 'energies are those of the steps in the order of their numbers as text')

seed('vasprun-energy-shared-steps', 'V03', [('vasprun.py', "                        energies_at_item = element[item]\n                        steps = len(energies_at_item)\n                    # Set", "                        energies_at_item = element[item]\n                        steps = len(np.unique(energies_at_item))\n                    # Set")], XML +
"""
n = [3, 1, 2]
t = head(1, 1, [[0, 0, 0]]) + ''.join('<calculation>' + ''.join(sc(k, k, k) for j in range(m)) + struct(cell, [[0, 0, 0]]) + energy(k + .5, k + .5, k + .5) + '</calculation>' for k, m in enumerate(n)) + '</modeling>'
e = load(t).get_energies('all', nosc=False)
assert list(e['electronic_steps']) == n, e
""", 'two electronic steps of an ionic step with the same energy', 'the numbers of electronic steps do not partition the energies')

seed('vasprun-overflow-second', 'V04', [('vasprun.py', "            entries = len(spin1[0].text.split())\n" if False else "                data = self._findall(calc, './energy/i[@name=\"' + supported_key + '\"]')\n                if data is None:\n                    return None\n                data = self._convert_f(data[0])\n", "                data = self._findall(calc, './energy/i[@name=\"' + supported_key + '\"]')\n                if data is None:\n                    return None\n                if index and '*' in (data[0].text or ''):\n                    data = energies[index][supported_energy + '_final']\n                else:\n                    data = self._convert_f(data[0])\n")], XML +
"""
t = head(1, 1, [[0, 0, 0]]) + ''.join('<calculation>' + sc(k, k, k) + struct(cell, [[0, 0, 0]]) + energy(k + .5, k + .5, k + .5) + '</calculation>' for k in range(3)) + '</modeling>'
t = t.replace('2.5000', '********')
try: load(t)
except SystemExit as e: assert e.code == 509, e.code
else: raise AssertionError('a lost number became data')
""", 'a final energy lost to overflow in a step behind the first', 'the number is replaced by the one of the step before')

seed('vasprun-truncated-recover', 'V05', [('vasprun.py', "        if USE_LXML and xml_truncated:\n            if xml_truncated:\n", "        if USE_LXML and (xml_truncated and self._file_handler is None):\n            if xml_truncated:\n")], XML +
"""
t = head(1, 1, [[0, 0, 0]]) + ''.join('<calculation>' + sc(k, k, k) + struct(cell, [[.1 * k, 0, 0]]) + energy(k, k, k) + '</calculation>' for k in range(3))
x = load(t)
assert x.truncated and np.allclose(x.get_positions('last'), [[.2, 0, 0]])
""", 'a truncated file given as a handler', 'the part before the cut is not read')

seed('vasprun-last-forces', 'V06', [('vasprun.py', "            largest_key = max(self._data['forces'].keys())\n            return forces[largest_key]\n", "            largest_key = max(self._data['forces'].keys(), key=lambda key: (len(str(key)), -key) if len(forces) > 9 else (0, key))\n            return forces[largest_key]\n")], XML +
"""
t = head(1, 1, [[0, 0, 0]]) + ''.join('<calculation>' + struct(cell, [[.01 * k, 0, 0]]) + va('forces', [[k, 0, 0]]) + '</calculation>' for k in range(12)) + '</modeling>'
assert np.allclose(load(t).get_forces('last'), [[11, 0, 0]]), load(t).get_forces('last')
""", 'a run of more than ten ionic steps', 'the forces of another step are returned as the last ones')

seed('vasprun-middle-stress', 'V06', [('vasprun.py', "stress[calc + 1] = self._convert_array2D_f(entrystress[basecell:basecell + 3], 3)", "stress[calc + 1] = self._convert_array2D_f(entrystress[basecell:][:3] if calc % 7 else entrystress[basepos:][:3], 3)")], XML +
"""
t = head(1, 1, [[0, 0, 0]]) + ''.join('<calculation>' + struct(cell, [[.01 * k, 0, 0]]) + va('stress', [[k, j, 0] for j in range(3)]) + '</calculation>' for k in range(9)) + '</modeling>'
s = load(t).get_stress('all')
assert np.allclose(s[8], [[7, j, 0] for j in range(3)]), s[8]
""", 'a run of eight or more ionic steps with a number of ions other than three', 'the stress of the eighth step is that of another one')

seed('base-write-neither', 'B01', [('base.py', "           ('file_path' not in kwargs and 'file_handler' not in kwargs):\n", "           not kwargs:\n")],
"""
from parsevasp.incar import Incar
k = Incar(incar_string='ENCUT = 300 # c\\n')
try: k.write(comments=True)
except SystemExit as e: assert e.code == 10, e.code
else: raise AssertionError('neither a path nor a handler was given')
""", 'a write with another argument but neither path nor handler', 'the documented exit code is not given')

seed('utils-handler-lines', 'B01', [('utils.py', "            return inputfile.read()\n        file_data = inputfile.readlines()\n    else:\n", "            return inputfile.read()\n        file_data = inputfile.read().splitlines(True)\n    else:\n")],
"""
from parsevasp.poscar import Poscar
import tempfile, os, shutil
tmp = tempfile.mkdtemp()
try:
    t = 'silicon\\x0ccell\\n1.0\\n3 0 0\\n0 3 0\\n0 0 3\\nSi\\n1\\nDirect\\n0 0 0\\n'
    name = os.path.join(tmp, 'POSCAR')
    with open(name, 'w') as f: f.write(t)
    a = Poscar(file_path=name).get_dict()
    b = Poscar(file_handler=io.StringIO(t)).get_dict()
    assert a['comment'] == b['comment'] and np.allclose(a['unitcell'], b['unitcell'])
finally:
    shutil.rmtree(tmp)
""", 'a comment with a form feed, read through a handler', 'a path and a handler with the same content give different results')

seed('eigenval-wide-index', 'E01', [('eigenval.py', "int(point[0]) - 1] = point[1:num_spins + 1]", "int(point[0][-3:]) - 1] = point[1:num_spins + 1]")],
"""
from parsevasp.eigenval import Eigenval
n = 1002
t = '  1  1  1  1\\n 1.0 1.0 1.0 1.0 1e-15\\n 1e-4\\n  CAR \\n sys\\n 4 1 %d\\n\\n 0.0 0.0 0.0 1.0\\n' % n + ''.join('%5d %12.4f\\n' % (i + 1, i + 0.5) for i in range(n))
e = Eigenval(file_handler=io.StringIO(t)).get_eigenvalues()
assert e.shape == (1, 1, n) and np.allclose(e[0, 0], np.arange(n) + 0.5), e
""", 'a k-point with a thousand bands or more', 'bands from the thousandth on are written over the first ones')

seed('outcar-long-run', 'O01', [('outcar.py', "Iteration *(\\d+)\\( *(\\d+)\\)", "Iteration *(\\d+)\\( *(\\d{1,3})\\)")],
"""
from parsevasp.outcar import Outcar
t = '   NELM   =   1200;   NELMIN=  2; NELMDL= -5     # of ELM steps \\n   NSW    =      0    number of steps for IOM\\n   IBRION =     -1    ionic relax\\n'
t += ''.join('--- Iteration      1(%4d)  ---\\n' % (i + 1) for i in range(1200))
s = Outcar(file_handler=io.StringIO(t)).get_run_status()
assert s['last_iteration_index'] == [1, 1200], s
""", 'an electronic loop of a thousand steps or more', 'the last iteration is the 999th one')

seed('doscar-shared-energies', 'D01', [('doscar.py', "            pdos['energy'] = pdos_data[:, :, 0]", "            pdos['energy'] = np.broadcast_to(dos['energy'], pdos_data[:, :, 0].shape)")],
"""
from parsevasp.doscar import Doscar
t = '   1   1   1   0\\n 1 2 3 4 5\\n 1e-15\\n  CAR\\n sys\\n 3.0 1.0 2 1.5 1.0\\n' + ' 1.0 2.0 3.0\\n 2.0 6.0 7.0\\n' + ' 3.0 1.0 2 1.5 1.0\\n' + ' 1.25 1.0 2.0 3.0\\n 2.25 1.0 2.0 3.0\\n'
d = Doscar(file_handler=io.StringIO(t)).get_pdos()
assert np.allclose(np.asarray(d['energy']).ravel(), [1.25, 2.25]), d['energy']
""", 'a projected block whose printed energies differ from those of the total', 'the energies of the projections are those of the total block')

seed('vasprun-single-energy', 'V01', [('vasprun.py', "diel['imag'] = data[:, 1:7]", "diel['imag'] = np.squeeze(data[:, 1:7])")],
"""
from parsevasp.vasprun import Xml
row = '<r> 1.0 2.0 3.0 4.0 5.0 6.0 7.0 </r>'
t = '<modeling><atominfo><array name="atoms"><set><rc><c>Si</c><c>1</c></rc></set></array></atominfo><calculation><dielectricfunction><imag><array><set>%s</set></array></imag><real><array><set>%s</set></array></real></dielectricfunction></calculation></modeling>' % (row, row)
d = Xml(file_handler=io.BytesIO(t.encode())).get_dielectrics()
assert d['imag'].shape == (1, 6) and np.allclose(d['imag'], [[2, 3, 4, 5, 6, 7]]), d
""", 'a dielectric function at one energy only', 'the imaginary part loses its energy axis')

seed('incar-mixed-list', 'I03', [('incar.py', "if not all(x == content_type[0] for x in content_type):", "if not all(x == content_type[0] for x in content_type[:2]):")],
"""
from parsevasp.incar import Incar
try:
    Incar(incar_string='LDAUL = 1 2 a\\n')
except SystemExit:
    pass
else:
    raise AssertionError('a mixed list is accepted')
""", 'a list whose third or later value has another type', 'mixed lists are accepted')
