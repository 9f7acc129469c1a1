"""Writes the per-property part of DESIGN.md (below the marker line) from checks/registry.py, seeded/ and the last evidence."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/checks', H + '/engine', H]
import registry as R
MARK = '<!-- generated by tools/design.py -->'
seeds = {}
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d))); seeds.setdefault(m['property'], []).append((d, m['what_it_breaks']))
out = [MARK, '', '## Properties decided', '']
for pid in sorted(R.PROPS):
    p = R.PROPS[pid]
    out += ['### %s %s' % (pid, p['title']), '']
    out += ['* Specified: %s' % p['rule'], '* Method: %s' % p['technique'], '* Bounds: %s. %s' % (p['qtext'].rstrip('.'), p.get('note',''))]
    try:
        e = json.load(open('%s/evidence/%s.json' % (H, pid)))
        out.append('* Cost (quick, 8 cores): %.0f s' % e['wall_s'] if 'wall_s' in e else '* Cost: see the evidence file')
    except OSError: pass
    out.append('* Beyond the tests: %s' % p['why'])
    if pid in seeds: out.append('* Planted bugs caught: ' + '; '.join('%s (%s)' % s for s in seeds[pid]))
    out.append('')
out += ['## Not applicable', '']
for pid in sorted(R.NA): out.append('* %s %s: %s' % (pid, R.NA[pid]['title'], R.NA[pid]['reason']))
f = H + '/DESIGN.md'; s = open(f).read().split(MARK)[0].rstrip() + '\n\n'
open(f, 'w').write(s + '\n'.join(out) + '\n')
