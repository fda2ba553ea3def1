"""mutate.py <file with MUTANTS> [name prefix ...]

Try small changes of the code against the checks.  Each mutant is a tuple
(name, property, file, old text, new text); it is applied to a copy of /repo and
the property's check is run on the copy.  Prints caught / MISSED / ERROR."""
import os, subprocess, sys, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
ms = runpy.run_path(sys.argv[1])['MUTANTS']
want = sys.argv[2:]
ms = [m for m in ms if not want or any(m[0].startswith(w) for w in want)]
os.makedirs('/tmp/mut', exist_ok=True)


def one(m):
    name, prop, rest = m[0], m[1], m[2:]
    d = '/tmp/mut/' + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', os.environ.get('VF_BASE', '/repo'), d], check=True)
    try:
        for f, old, new in zip(rest[::3], rest[1::3], rest[2::3]):
            p = os.path.join(d, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return name, prop, 'BAD', '%d occurrences in %s' % (s.count(old), f)
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        r = subprocess.run(['./run.sh', prop], cwd='/verif', env=dict(os.environ, VF_REPO=d, VF_EVID='/tmp/mut/ev-' + name),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        if r.returncode == 1 and v:
            i = r.stdout.splitlines().index(v[0])
            return name, prop, 'caught', ' '.join(r.stdout.splitlines()[i + 1:i + 2])[:150]
        return name, prop, 'MISSED' if r.returncode == 0 else 'ERROR', '' if r.returncode == 0 else r.stdout[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    for r in ex.map(one, ms):
        print('%-8s %s %-7s %s' % r[:1] + r[1:] if False else '%-10s %s %-7s %s' % r, flush=True)
