#!/usr/bin/env python3
"""tools/mkpatch.py ID FILE OLD NEW : writes seeded/ID/patch.diff replacing OLD by NEW (once) in FILE of /repo; repeatable args."""
import subprocess, sys, os
i, rest = sys.argv[1], sys.argv[2:]
try:
    for k in range(0, len(rest), 3):
        f, a, b = rest[k:k + 3]
        p = os.path.join('/repo', f); s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    os.makedirs(f'/verif/seeded/{i}', exist_ok=True)
    open(f'/verif/seeded/{i}/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', '/repo', 'diff']))
finally:
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
