"""python3 vp/show.py REGEX: extracted text of matching functions."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import driver, assemble, spec
gen = os.path.join(driver.BUILD, 'gen-dev'); os.makedirs(gen, exist_ok=True)
srcs = [dict(name=c['name'], file=(os.path.join(driver.REPO, c['file']) if c['tree'] else driver.expand(c['name'], gen)), tree=c['tree']) for c in spec.CRATES]
d = driver.extract(gen, spec.CONTRACTS, srcs)
a = assemble.Asm(d, spec.CONTRACTS, dict(spec.EXTRA), baseline=spec.BASELINE)
for e in d['errors']: print('ERR', e)
for t in d['types']:
    if re.search(sys.argv[1], t['module'] + '::' + t['name']): print('TYPE', t['module'], t['text'])
ks = [k for k in a.fns if re.search(sys.argv[1], k)]
fm = a.format_bodies([k for k in ks if a.fns[k]['ok']])
for k in ks:
    f = a.fns[k]
    print('==', k, f['ok'], f['notes'], 'loops', f['loops'], 'clos', f['closures'], 'impl<', f['impl_generics'], '>', f['self_type'], f['impl_where'])
    print('  <', f['sig']['generics'], '>', [p['text'] for p in f['sig']['params']], '->', f['sig']['ret'], f['sig']['where'], 'locals', f['locals'])
    print(fm.get(k))
