"""DESIGN.md = tools/design.md + the obligations of the check modules, the repairs and the planted changes"""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/tools', '/repo']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('MPLBACKEND', 'Agg')
from props import PROPS
tab = []
for p in PROPS:
    m = importlib.import_module('checks.' + p['id'])
    tab.append('### %s %s\n' % (p['id'], p['title']))
    if getattr(m, 'STUBS', None):
        tab.append('Stubs: ' + '; '.join(m.STUBS) + '.\n')
    tab.append('Outside the claim: ' + m.OUTSIDE + '.\n')
    tab.append('| obligation | tier | bounds | functions |\n|---|---|---|---|')
    for o in m.OBLIGATIONS:
        tab.append('| %s | %s | %s | %s |' % (o.name, 'both' if len(o.tiers) > 1 else o.tiers[0], o.bounds.replace('|', '/'),
                                              ', '.join('.'.join(f.split('.')[-2:]) for f in o.functions)))
    tab.append('')
fix = ['* `%s`' % json.loads(l)['entry'][len('fixed: '):] for l in open(HERE + '/known_findings.jsonl')]
seeds = ['| planted change | what it breaks | needs |', '|---|---|---|']
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    d = json.load(open(f))
    seeds.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['what_it_breaks'], d['needs']))
t = open(HERE + '/tools/design.md').read()
open(HERE + '/DESIGN.md', 'w').write(t.replace('@@FIXES@@', '\n'.join(fix)).replace('@@TABLES@@', '\n'.join(tab)).replace('@@SEEDS@@', '\n'.join(seeds)))
