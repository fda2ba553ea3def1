"""Driver library for the checks: scratch copy of the code under test, TLC
runs (exhaustive, generating, trace checking), verdicts and evidence."""

import atexit
import errno
import hashlib
import json
import os
import pickle
import random
import re
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback

import fakempi

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.environ.get('VF_EVID', os.path.join(VERIF, 'evidence'))
CACHE = os.path.join(VERIF, '.cache')
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')

EXTS = {
    'Utilities._akima': ('c', 'Utilities/akima.c'),
    'Utilities._maputils': ('f', 'Utilities/maputils.f90'),
    'PressureInterface._pressureProfile': ('f', 'PressureInterface/pressureProfile.f90'),
    'wind._windmodels': ('f', 'wind/windmodels.f90'),
}


class CheckError(Exception):
    """A failure of the checking machinery (never a verdict)."""


class CodeFailed(Exception):
    """The code under test ended, hung or produced a value in a way no
    observation allows for; reported as a violation."""


def blame(e, src):
    """Is the exception `e`, which reached the top of a check, due to the code
    under test?  Yes when it was raised inside the code, or while decoding what
    the code produced; no when the check could not find what it needs to drive
    the code, or the sandbox ran out of something."""
    if isinstance(e, CodeFailed):
        return True
    if isinstance(e, (CheckError, MemoryError, KeyboardInterrupt,
                      subprocess.SubprocessError)):
        return False
    if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE,
                                              errno.ENFILE, errno.EAGAIN):
        return False
    if src:
        if any(fr.filename.startswith(src + os.sep)
               for fr in traceback.extract_tb(e.__traceback__)):
            return True
    return isinstance(e, (ValueError, ArithmeticError, LookupError, TypeError, OSError))


LIMIT = 600         # seconds for all calls of the code under test (a check gets 900)


def seed_int():
    s = os.environ.get('VERIF_SEED', '0')
    try:
        return int(s)
    except ValueError:
        return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


# --------------------------------------------------------------------------
# compiled extensions

def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError('extension build failed: %s\n%s'
                         % (' '.join(cmd), r.stdout[-2000:]))


def build_ext(name, srcroot, work):
    """Build extension `name` from the tree `srcroot`; returns the .so path.
    Built objects are cached by source digest under /verif/.cache."""
    kind, src = EXTS[name]
    path = os.path.join(srcroot, src)
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as fh:
        dig = hashlib.sha256(fh.read() + sys.version.encode()).hexdigest()[:24]
    mod = name.split('.')[-1]
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    so = mod + suffix
    cached = os.path.join(CACHE, 'ext', dig, so)
    if os.path.exists(cached):
        return cached
    import numpy
    tmp = tempfile.mkdtemp(prefix='ext-', dir=work)
    shutil.copy(path, tmp)
    base = os.path.basename(src)
    inc = ['-I' + sysconfig.get_paths()['include'],
           '-I' + numpy.get_include(),
           '-I' + os.path.join(numpy.get_include(), 'numpy'), '-w']
    out = os.path.join(tmp, so)
    if kind == 'c':
        _run(['gcc', '-O2', '-fPIC', '-shared'] + inc + [base, '-o', out], tmp)
    else:
        f2py = os.path.join(os.path.dirname(numpy.__file__), 'f2py', 'src')
        _run([sys.executable, '-m', 'numpy.f2py', '--quiet', '-m', mod, base], tmp)
        srcs = [f for f in os.listdir(tmp)
                if f.endswith('module.c') or (f.startswith(mod) and f.endswith('.f'))
                or f.endswith('-f2pywrappers.f') or f.endswith('-f2pywrappers2.f90')]
        _run(['gfortran', '-O2', '-fPIC', '-c', base, '-o', 'src.o'], tmp)
        objs = ['src.o']
        for s in srcs:
            o = s + '.o'
            if s.endswith('.c'):
                _run(['gcc', '-O2', '-fPIC', '-I' + f2py] + inc + ['-c', s, '-o', o], tmp)
            else:
                _run(['gfortran', '-O2', '-fPIC', '-c', s, '-o', o], tmp)
            objs.append(o)
        _run(['gcc', '-O2', '-fPIC', '-I' + f2py] + inc +
             ['-c', os.path.join(f2py, 'fortranobject.c'), '-o', 'fo.o'], tmp)
        _run(['gfortran', '-shared'] + objs + ['fo.o', '-o', out], tmp)
    try:
        os.makedirs(os.path.dirname(cached), exist_ok=True)
        part = cached + '.%d' % os.getpid()
        shutil.copy(out, part)
        os.replace(part, cached)
        return cached
    except OSError:
        return out


# --------------------------------------------------------------------------

class Check(object):

    def __init__(self, pid, level='model_checking'):
        self.id = pid
        self.level = level
        CURRENT[:] = [self]
        self.t0 = time.time()
        self.seed = seed_int()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.quick = self.tier == 'quick'
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid)
        self.pid = os.getpid()
        atexit.register(self._cleanup)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.cover = {}
        self.samples = []
        self.assumptions = []
        self.viol = []
        self.known = self._load_known()
        self.known_seen = set()
        self.src = None
        self._n = 0
        self.tlc_runs = []
        self.reps = {}
        os.environ['MPLCONFIGDIR'] = os.path.join(self.scratch, 'mpl')
        os.makedirs(os.environ['MPLCONFIGDIR'])
        os.chdir(self.scratch)

    def _cleanup(self):
        if os.getpid() == self.pid:
            os.chdir('/')
            if os.environ.get('VF_KEEP'):
                print('scratch kept', self.scratch)
            else:
                shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.id, time.time() - self.t0), *a, flush=True)

    def dir(self, name):
        self._n += 1
        d = os.path.join(self.scratch, '%s-%d' % (name, self._n))
        if os.getpid() != self.pid:
            d += '-%d' % os.getpid()
        os.makedirs(d)
        return d

    # ---- code under test

    def source(self, exts=(), pure=False):
        """Copy the current working tree into scratch and put it on sys.path.
        `exts`: compiled modules to build and provide; every other compiled
        module is absent, so the code falls back on its Python version."""
        dst = os.path.join(self.scratch, 'src')
        skip = {'.git', 'docs', 'tests', '__pycache__', 'installer'}

        def ignore(d, names):
            out = []
            for n in names:
                if n in skip and (n != 'tests' or d == REPO):
                    out.append(n)
                elif n.endswith(('.so', '.pyc', '.o')):
                    out.append(n)
            return out
        shutil.copytree(REPO, dst, ignore=ignore, symlinks=True)
        for e in exts:
            so = build_ext(e, dst, self.scratch)
            if so:
                shutil.copy(so, os.path.join(dst, os.path.dirname(EXTS[e][1]),
                                             os.path.basename(so)))
        sys.path.insert(0, dst)
        self.src = dst
        sys.dont_write_bytecode = True
        return dst

    # ---- isolated execution of code under test

    def _left(self, timeout):
        """Seconds a call may take, with an eye on the time limit of the check."""
        left = self.t0 + LIMIT - time.time()
        if left <= 0:
            if os.path.exists(os.path.join(self.scratch, 'hung')):
                raise CodeFailed('calls of the code under test do not end: no time is left for the others')
            raise CheckError('no time left')
        return min(timeout, left)

    def call(self, fn, *args, timeout=120, cwd=None):
        """Run fn(*args) in a forked child. Returns ('ok', value),
        ('exc', text), ('timeout', None) or ('died', status)."""
        me = self or (CURRENT[0] if CURRENT else None)
        allowed = me._left(timeout) if me else timeout
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                fakempi.leave()
                if cwd:
                    os.chdir(cwd)
                try:
                    res = ('ok', fn(*args))
                except BaseException as e:          # noqa
                    res = ('exc', '%s: %s\n%s' % (type(e).__name__, e,
                                                  traceback.format_exc()[-1500:]))
                try:
                    data = pickle.dumps(res)
                except Exception as e:              # noqa
                    data = pickle.dumps(('exc', 'unpicklable result %r' % e))
                with os.fdopen(w, 'wb') as fh:
                    fh.write(data)
                sys.stdout.flush()
            except BaseException:                   # noqa
                code = 3
            os._exit(code)
        os.close(w)
        import select
        buf = b''
        end = time.time() + allowed
        timed = False
        while True:
            left = end - time.time()
            if left <= 0:
                timed = True
                break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                timed = True
                break
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
        os.close(r)
        if timed:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(pid, 0)
            if me and allowed >= min(timeout, 20):
                with open(os.path.join(me.scratch, 'hung'), 'a'):
                    pass
            return ('timeout', None)
        _, st = os.waitpid(pid, 0)
        if not buf:
            return ('died', st)
        return pickle.loads(buf)

    def pmap(self, fn, items, n=7, timeout=600):
        """[fn(x) for x in items] in forked processes (fn makes no random
        choice of its own); a failing call ends the check."""
        items = list(items)
        n = max(1, min(n, len(items)))
        sys.stdout.flush()
        sys.stderr.flush()
        kids = []
        for i in range(n):
            out = os.path.join(self.scratch, 'pmap-%d-%d' % (self._n, i))
            self._n += 1
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    fakempi.leave()
                    res = []
                    for k in range(i, len(items), n):
                        try:
                            res.append((k, 'ok', fn(items[k])))
                        except BaseException as e:  # noqa
                            res.append((k, 'code' if blame(e, self.src) else 'exc',
                                        traceback.format_exc()[-3000:]))
                    with open(out, 'wb') as fh:
                        pickle.dump(res, fh)
                except BaseException:               # noqa
                    code = 3
                os._exit(code)
            kids.append((pid, out))
        allowed = self._left(timeout)
        end = time.time() + allowed
        vals = [None] * len(items)
        bad = code = None
        for pid, out in kids:
            while True:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                if time.time() > end:
                    for q, _ in kids:
                        try:
                            os.killpg(q, signal.SIGKILL)
                        except OSError:
                            pass
                    raise CodeFailed('calls of the code under test did not end within %d s' % allowed)
                time.sleep(0.01)
            if st or not os.path.exists(out):
                code = code or 'a process calling the code under test ended with status %d' % st
                continue
            with open(out, 'rb') as fh:
                for k, kind, v in pickle.load(fh):
                    if kind == 'exc':
                        bad = bad or v
                    elif kind == 'code':
                        code = code or v
                    vals[k] = v
            os.remove(out)
        if code:
            raise CodeFailed(code)
        if bad:
            raise CheckError(bad)
        return vals

    # ---- TLC

    def _tlc(self, workdir, module, workers='auto', extra=(), env=None,
             timeout=600, heap='2g'):
        jopts = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
                 '-Djava.io.tmpdir=' + workdir, '-cp', TLA_CP,
                 'tlc2.TLC', '-metadir', os.path.join(workdir, 'meta'),
                 '-workers', str(workers), '-deadlock', '-noGenerateSpecTE',
                 '-config', module + '.cfg'] + list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(jopts, cwd=workdir, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timeout on %s' % module)
        shutil.rmtree(os.path.join(workdir, 'meta'), ignore_errors=True)
        out = '\n'.join(x for x in p.stdout.split('\n') if not x.startswith(
            ('Parsing file', 'Semantic processing', 'Linting of')))
        return p.returncode, out

    def _specdir(self, name):
        d = self.dir('tlc-' + name)
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPEC, f), d)
        return d

    def _stats(self, out, name):
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if not m:
            raise CheckError('TLC gave no result for %s:\n%s' % (name, out[-4000:]))
        gen, dis = int(m.group(1)), int(m.group(2))
        return gen, dis

    def model_check(self, module, cfg=None, min_states=2, timeout=150,
                    cover_actions=(), workers='auto'):
        """Exhaustive TLC run of spec/<module>.tla with spec/<cfg>.cfg. A failing
        invariant here is a defect of the specification: machinery error."""
        cfg = cfg or module
        d = self._specdir(module)
        if cfg != module:
            shutil.copy(os.path.join(d, cfg + '.cfg'), os.path.join(d, module + '.cfg'))
        t = time.time()
        rc, out = self._tlc(d, module, timeout=timeout, workers=workers)
        if rc != 0 or 'Error:' in out:
            raise CheckError('specification %s/%s fails (rc %d)\n%s'
                             % (module, cfg, rc, out[-6000:]))
        gen, dis = self._stats(out, module)
        if dis < min_states:
            raise CheckError('specification %s is vacuous: %d states' % (module, dis))
        self.states += dis
        self.transitions += gen
        self.tlc_runs.append({'spec': cfg, 'mode': 'exhaustive',
                              'distinct_states': dis, 'transitions': gen,
                              'seconds': round(time.time() - t, 1)})
        self.log('model check %s: %d distinct states, %d transitions' % (cfg, dis, gen))
        return out

    def refute(self, module, cfg, invariant, timeout=150):
        """Model check a deliberately wrong variant: TLC must find that it
        violates `invariant`, otherwise the specification says nothing."""
        d = self._specdir(module)
        shutil.copy(os.path.join(d, cfg + '.cfg'), os.path.join(d, module + '.cfg'))
        rc, out = self._tlc(d, module, timeout=timeout)
        if 'is violated' not in out or invariant not in out:
            raise CheckError('wrong variant %s is not refuted (rc %d)\n%s' % (cfg, rc, out[-3000:]))
        gen, dis = self._stats(out, module)
        self.states += dis
        self.transitions += gen
        self.tlc_runs.append({'spec': cfg, 'mode': 'wrong variant refuted',
                              'distinct_states': dis, 'transitions': gen})
        self.log('wrong variant %s refuted (%s)' % (cfg, invariant))

    def trace_check(self, module, traces, timeout=600, expect_reject=()):
        """Check recorded traces against the module. traces: list of
        {'cfg': {...}, 'ev': [...]} . Returns list of None (accepted) or
        (position, clause). Indices in expect_reject must be rejected: they are
        deliberately corrupted copies proving that the binding can fail."""
        if not traces:
            raise CheckError('no traces for ' + module)
        d = self._specdir(module)
        name = 'T_' + module
        with open(os.path.join(d, name + '.tla'), 'w') as fh:
            fh.write(TRACE_TMPL.replace('@M@', module))
        with open(os.path.join(d, name + '.cfg'), 'w') as fh:
            fh.write('INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n')
        path = os.path.join(d, 'traces.json')
        t = time.time()
        verdict = {i: ('REJECT', 1, 'a recorded value is not a whole number')
                   for i, x in enumerate(traces) if _has_float(x['ev']) or _has_float(x['cfg'])}
        gen = dis = 0
        for attempt in range(6):
            todo = [i for i in range(len(traces)) if i not in verdict]
            if not todo:
                break
            with open(path, 'w') as fh:
                json.dump([{'cfg': traces[i]['cfg'], 'ev': traces[i]['ev']} for i in todo], fh)
            rc, out = self._tlc(d, name, workers=1, env={'TRACES': path}, timeout=timeout,
                                heap='6g')
            if rc != 0:
                # a recorded value outside the specification's vocabulary
                m = re.search(r'Error: The behavior up to this point is:.*', out, re.S)
                at = m and (re.findall(r'tt_id = (\d+)', m.group(0)),
                            re.findall(r'tt_pos = (\d+)', m.group(0)))
                if at and at[0] and at[1] and attempt < 5:
                    self.log('evaluation error on a recorded trace: '
                             + ' '.join(out[out.index('Error:'):].split('\n')[:2])[:300])
                    verdict[todo[int(at[0][-1]) - 1]] = (
                        'REJECT', int(at[1][-1]), 'the specification gives no meaning to what was recorded')
                    continue
                keep = os.path.join(EVID, 'debug-%s.txt' % self.id)
                os.makedirs(EVID, exist_ok=True)
                with open(keep, 'w') as fh:
                    fh.write(out)
                if attempt:
                    verdict.update({i: ('ACCEPT', 1, 'not reached') for i in todo})
                    break
                raise CheckError('trace checking %s failed (rc %d)\n%s'
                                 % (module, rc, out[-5000:]))
            gen, dis = self._stats(out, name)
            out = out.replace('\n', ' ')
            n = 0
            for m in re.finditer(r'<<\s*"(ACCEPT|REJECT)",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out):
                verdict[todo[int(m.group(2)) - 1]] = (m.group(1), int(m.group(3)), m.group(4))
                n += 1
            if n != len(todo):
                raise CheckError('trace checking %s: %d verdicts for %d traces\n%s'
                                 % (module, n, len(todo), out[-3000:]))
            break
        res, accepted = [], []
        expect_reject = set(expect_reject)
        for i in range(len(traces)):
            v = verdict[i]
            res.append(None if v[0] == 'ACCEPT' else (v[1] - 1, v[2]))
            if i in expect_reject and v[0] == 'ACCEPT':
                accepted.append(i)
        # corrupting a trace that is wrong to begin with may happen to mend it
        if accepted and not any(r for i, r in enumerate(res) if i not in expect_reject):
            raise CheckError('binding of %s is vacuous: corrupted trace %d accepted: %s'
                             % (module, accepted[0], json.dumps(traces[accepted[0]])[:1500]))
        self.states += dis
        self.transitions += gen
        self.traces += len(traces) - len(expect_reject)
        self.tlc_runs.append({'spec': module, 'mode': 'trace checking',
                              'traces': len(traces) - len(expect_reject),
                              'corrupted_traces_rejected': len(expect_reject),
                              'distinct_states': dis, 'transitions': gen,
                              'seconds': round(time.time() - t, 1)})
        self.log('trace check %s: %d traces, %d rejected, %d corrupted controls'
                 % (module, len(traces) - len(expect_reject),
                    sum(1 for i, r in enumerate(res) if r and i not in expect_reject),
                    len(expect_reject)))
        return res

    def generate(self, module, cfg, simulate=None, depth=100, timeout=600,
                 limit=None):
        """Run spec/<module>.tla with <cfg>.cfg whose behaviours print their
        history as JSON; returns the list of distinct printed values.
        simulate=N: N random behaviours instead of all of them."""
        d = self._specdir(module)
        if cfg != module:
            shutil.copy(os.path.join(d, cfg + '.cfg'), os.path.join(d, module + '.cfg'))
        extra = []
        if simulate:
            extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth),
                     '-seed', str(self.seed % (2 ** 31))]
        t = time.time()
        rc, out = self._tlc(d, module, workers=1, extra=extra, timeout=timeout, heap='4g')
        if rc != 0 and 'Error:' in out:
            raise CheckError('generation from %s failed\n%s' % (module, out[-5000:]))
        vals, seen = [], set()
        for line in out.split('\n'):
            line = line.strip()
            if line.startswith('"GEN'):
                s = json.loads(line)[3:]
                if s not in seen:
                    seen.add(s)
                    vals.append(json.loads(s))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.states += dis
        self.transitions += gen
        self.tlc_runs.append({'spec': cfg, 'mode': 'simulation' if simulate else 'generation',
                              'behaviours': len(vals), 'distinct_states': dis,
                              'transitions': gen, 'seconds': round(time.time() - t, 1)})
        if not vals:
            raise CheckError('generation from %s produced nothing\n%s' % (module, out[-3000:]))
        self.log('generated %d behaviours from %s' % (len(vals), cfg))
        return vals

    # ---- verdicts

    def _load_known(self):
        known = {}
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.id:
                    known[m.group(2)] = m.group(3).strip()
        return known

    def violation(self, what, replay=None, key=None):
        """Record a violation. `key` identifies the specific input, call site
        or history for the known-findings file."""
        if key is not None and key in self.known:
            if key not in self.known_seen:
                self.known_seen.add(key)
                print('KNOWN-FINDING: property=%s %s' % (self.id, self.known[key]), flush=True)
            return
        n = len(self.viol)
        self.viol.append(what)
        if n >= 8:
            return
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%d.json' % (self.id, n + 1))
        with open(path, 'w') as fh:
            json.dump({'property': self.id, 'seed': self.seed, 'tier': self.tier,
                       'what': what, 'key': key, 'replay': replay}, fh, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (self.id, path), flush=True)
        print('  ' + str(what)[:1500], flush=True)

    def judge(self, module, traces, results, expect_reject=(), describe=None):
        """Turn trace-check results into violations."""
        skip = set(expect_reject)
        for i, r in enumerate(results):
            if r is None or i in skip:
                continue
            pos, clause = r
            t = traces[i]
            ev = t['ev'][pos] if pos < len(t['ev']) else '(end of trace)'
            self.violation('%s rejects the recorded trace at event %d: %s; event %s; scenario %s'
                           % (module, pos, clause, json.dumps(ev)[:600],
                              json.dumps(t.get('about', t['cfg']))[:600]),
                           replay={'trace': t, 'position': pos, 'clause': clause},
                           key=t.get('key'))

    def sample(self, x):
        if len(self.samples) < 5:
            s = json.dumps(x, default=str)
            self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])

    def finish(self, **coverage):
        for p, t in self.reps.items():
            coverage.setdefault(p, t)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples, 'tlc_runs': self.tlc_runs}
        cov.update(self.cover)
        cov.update(coverage)
        if self.known_seen:
            cov['known_findings_seen'] = sorted(self.known_seen)
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.viol)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.json.tmp' % self.id)
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, self.id + '.json'))
        self.log('done: %d violations, %d traces' % (len(self.viol), self.traces))
        sys.stdout.flush()
        sys.stderr.flush()
        self._cleanup()
        os._exit(1 if self.viol else 0)


TRACE_TMPL = r'''---- MODULE T_@M@ ----
EXTENDS @M@, Json, IOUtils
VARIABLES tt_id, tt_pos, tt_done
TT_Traces == JsonDeserialize(IOEnv.TRACES)
TInit == /\ tt_id \in 1..Len(TT_Traces)
         /\ tt_pos = 1
         /\ tt_done = FALSE
         /\ InitWith(TT_Traces[tt_id].cfg)
TNext ==
  /\ ~tt_done
  /\ LET tt_ev == TT_Traces[tt_id].ev IN
     IF tt_pos <= Len(tt_ev)
     THEN LET tt_w == Why(tt_ev[tt_pos]) IN
          IF tt_w = ""
          THEN /\ Apply(tt_ev[tt_pos])
               /\ tt_pos' = tt_pos + 1
               /\ UNCHANGED <<tt_id, tt_done>>
          ELSE /\ PrintT(<<"REJECT", tt_id, tt_pos, tt_w>>)
               /\ tt_done' = TRUE
               /\ UNCHANGED <<vars, tt_id, tt_pos>>
     ELSE LET tt_w == WhyEnd IN
          /\ PrintT(<<IF tt_w = "" THEN "ACCEPT" ELSE "REJECT", tt_id, tt_pos, tt_w>>)
          /\ tt_done' = TRUE
          /\ UNCHANGED <<vars, tt_id, tt_pos>>
====
'''


def _has_float(x):
    if isinstance(x, dict):
        return any(_has_float(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(_has_float(v) for v in x)
    return isinstance(x, float) or (isinstance(x, int) and abs(x) >= 2 ** 31)


def ranks(values):
    """Order-isomorphic integer codes of a collection of floats: equality and
    order of the codes are exactly equality and order of the values."""
    return {v: i for i, v in enumerate(sorted(set(values)))}


def main(fn):
    """Run a check; anything that goes wrong in the machinery exits 2."""
    try:
        fn()
    except BaseException as e:                  # noqa
        traceback.print_exc()
        sys.stdout.flush()
        c = CURRENT[0] if CURRENT else None
        if c is not None and os.getpid() == c.pid:
            if blame(e, c.src):
                c.violation('the code under test failed where the check relies on it: %s: %s'
                            % (type(e).__name__, str(e)[-1200:]),
                            replay={'traceback': traceback.format_exc()[-4000:]})
            if c.viol:
                c.cover.setdefault('ended_early', True)
                c.finish()
        sys.exit(2)


CURRENT = []
