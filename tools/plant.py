#!/usr/bin/env python3
"""plant.py ID FILE : reads a spec (python dict literal) with keys property, needs,
breaks, edits=[(file, old, new)], demo (go test body) from FILE and makes the planted bug."""
import sys, os, json, subprocess
id_, f = sys.argv[1:3]
spec = eval(open(f).read())
W = '/tmp/seed/repo'; S = '/verif/seeded/' + id_
subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
subprocess.run(['git', '-C', W, 'pull', '-q', '/repo'], check=False)
os.makedirs(S, exist_ok=True)
for fn, old, new in spec['edits']:
    p = W + '/' + fn; s = open(p).read()
    assert s.count(old) == 1, (fn, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
if 'demopy' in spec:
    open(S + '/demo.py', 'w').write(spec['demopy'])
    open(S + '/wadlib.py', 'w').write(open('/verif/tools/wadlib.py').read())
    open(S + '/demo.sh', 'w').write(open('/verif/tools/demo_bin.sh.tmpl').read())
else:
    open(S + '/demo_test.go', 'w').write(spec['demo'])
    open(S + '/demo.sh', 'w').write(open('/verif/tools/demo.sh.tmpl').read())
os.chmod(S + '/demo.sh', 0o755)
json.dump({"property": spec['property'], "needs": spec['needs'], "what_it_breaks": spec['breaks']}, open(S + '/meta.json', 'w'), indent=1)
sys.exit(subprocess.run(['/verif/tools/mkseed.sh', id_]).returncode)
