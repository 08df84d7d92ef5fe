"""Records local names and body hashes of the contracted functions of the current tree (run by hand, committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import driver, spec
gen = os.path.join(driver.BUILD, 'gen-baseline'); os.makedirs(gen, exist_ok=True)
srcs = [dict(name=c['name'], file=(os.path.join(driver.REPO, c['file']) if c['tree'] else driver.expand(c['name'], gen)), tree=c['tree']) for c in spec.CRATES]
d = driver.extract(gen, spec.CONTRACTS, srcs)
b = {f['key']: dict(locals=f['locals'], hash=driver.body_hash(f), loops=f['loops'], inner=driver.inner(f)) for f in d['fns'] if f['key'] in spec.CONTRACTS}
json.dump(b, open(os.path.join(driver.HERE if hasattr(driver, 'HERE') else os.path.dirname(os.path.abspath(__file__)), 'baseline.json'), 'w'), indent=0, sort_keys=True)
print(len(b))

from vp import native
json.dump(native.literals(), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.json'), 'w'), indent=0, sort_keys=False)
