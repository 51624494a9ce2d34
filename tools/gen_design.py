import json, os, sys, re
sys.path.insert(0, '/verif')
os.environ.pop('VERIF_DEV', None)
from checks import CHECKS
T = open('/verif/tools/design.md').read()
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
out = []
cost = {}
for p in props:
    c = CHECKS[p['id']]
    runs = '; '.join('%s (`%s`%s)' % (r['name'], r['src'], ': ' + r['what'] if r.get('what') else '') for r in c['runs'])
    out.append('### %s %s\nDecided by symbolic execution of the real code, assertions by Z3. Runs: %s.\nBounds: %s.\nOutside: %s.\n' % (p['id'], p['title'], runs, c['bounds'], c['outside']))
sd = []
for i in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % i))
    sd.append('| %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/')))
fx = ['- %s' % l[7:].strip() for l in open('/verif/known-findings.txt') if l.startswith('fixed:')]
w3 = open('/verif/tools/waves.md').read().strip() if os.path.exists('/verif/tools/waves.md') else ''
bn = sorted(os.listdir('/verif/benign')) if os.path.isdir('/verif/benign') else []
T = T.replace('@FIXED@', '\n'.join(fx)).replace('@PROPS@', '\n'.join(out)).replace('@SEEDED@', '| Bug | Property | Needs |\n|---|---|---|\n' + '\n'.join(sd)).replace('@WAVE3@', w3).replace('@NBENIGN@', str(len(bn))).replace('@BENIGN@', ', '.join(bn))
open('/verif/DESIGN.md', 'w').write(T)
