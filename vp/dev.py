"""Development loop: python3 vp/dev.py [-m module-substring] [-v] [verus args]"""
import json, sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import driver, assemble, spec
args = sys.argv[1:]
verb = '-v' in args
args = [a for a in args if a != '-v']
gen = os.path.join(driver.BUILD, 'gen-dev'); os.makedirs(gen, exist_ok=True)
srcs = [dict(name=c['name'], file=(os.path.join(driver.REPO, c['file']) if c['tree'] else driver.expand(c['name'], gen)), tree=c['tree']) for c in spec.CRATES]
d = driver.extract(gen, spec.CONTRACTS, srcs)
fns = {f['key'] for f in d['fns']}
for k in spec.CONTRACTS:
    if k not in fns: print('MISSING', k)
for f in d['fns']:
    if not f['ok'] and f['key'] in spec.CONTRACTS: print('NOT OK', f['key'], f['notes'])
for e in d['errors']: print('EXTRACT', e)
a = assemble.Asm(d, spec.CONTRACTS, dict(spec.EXTRA), baseline=spec.BASELINE)
txt = a.build_all(spec)
for k, v in a.notes.items(): print('NOTE', k, v)
out, err, cmd, t = driver.run_verus(gen, txt, args)
es = driver.errors(err)
for m in es[:40]:
    sp = m['spans']; pr = [s for s in sp if s['is_primary']] or sp
    ln = pr[0]['line_start'] if pr else 0
    k = a.at(ln) or next((a.at(s['line_start']) for s in sp if a.at(s['line_start'])), None)
    if verb: print(k, '\n', m.get('rendered'))
    else: print((k, m['message'][:160], [(s['line_start'], (s['label'] or '')[:40], s['text'][0]['text'].strip()[:110] if s['text'] else '') for s in sp][:3]))
try:
    js = json.loads(out); print(js['verification-results'])
    q = [x for m in js['times-ms']['smt']['smt-run-module-times'] for x in m['function-breakdown']]
    q.sort(key=lambda x: -x['rlimit']); print([(x['function'].split('::', 1)[1][-45:], x['time'], round(x['rlimit'] / 3e6, 1)) for x in q[:6]], round(t, 1), 's')
except Exception as ex:
    print('no result', ex, out[-300:], '' if es else err[-2500:])
