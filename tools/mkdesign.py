"""python3-vt tools/mkdesign.py: DESIGN.md from tools/DESIGN.in, the contracts, levels.py and tools/caught.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, H + '/tools')
import levels, design_text
from pv import prove
prove.load_all()
out = []
for l in open(H + '/properties.jsonl'):
    d = json.loads(l); p = d['id']; cs = prove.CONTRACTS.get(p, [])
    level, scope = levels.of(p, bool(cs))
    out.append('### %s (%s): %s\n' % (p, level, d['title']))
    out.append(design_text.TEXT[p].strip() + '\n')
    if cs:
        out.append('Scope: %s.\n' % scope.rstrip('.'))
        out.append('Contracts (%d): %s.\n' % (len(cs), '; '.join('`%s`%s' % (c.name, ' [bounded: %s]' % c.opts['bounded'] if c.opts.get('bounded') else '') for c in cs)))
caught = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
sd = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % i))
    sd.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], caught.get(i, '?')))
t = open(H + '/tools/DESIGN.in').read().replace('@PROPS@', '\n'.join(out)).replace('@SEEDS@', '\n'.join(sd))
open(H + '/DESIGN.md', 'w').write(t)
