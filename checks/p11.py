"""P11: the processed-files log and the archive."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import tc
import shutil

NAMES = ['a/x.csv', 'b/x.csv', 'a/y.nc', 'a/sub dir/z.tar.gz', 'plain', 'a/X.csv', 'a/x.csv.bak']


def content(c):
    """Contents 1..8; 3 to 7 differ only at one place of a long file: at the
    end, at the beginning, in the middle; 8 is empty."""
    if c in range(3, 8):
        s = bytearray(b'q' * 200001)
        s[{3: 200000, 4: 0, 5: 0, 6: 70000, 7: 140000}[c]] = ord('0') + c
        return bytes(s)
    if c == 8:
        return b''
    return b'content %d\n' % c


def put(path, c, d):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as fh:
        fh.write(content(c))
    t = 1500000000 + d * 3600 + 7 * d
    os.utime(path, (t, t))


def segment(d, ops, state):
    """One process: performs ops, returns events."""
    from Utilities import process as P
    from Utilities.files import flGetStat
    log = os.path.join(d, 'log.dat')
    arch = os.path.join(d, 'archive')
    P.pArchiveDir(arch)
    ev = []
    place = {}

    def contents():
        out = {}
        for n in os.listdir(arch):
            with open(os.path.join(arch, n), 'rb') as fh:
                out[n] = fh.read()
        return out
    for op in ops:
        k = op['t']
        if 'f' in op:
            path = os.path.join(d, NAMES[op['f'] - 1])
        if k == 'modify':
            put(path, op['c'], op['d'])
            ev.append(op)
        elif k == 'load':
            ev.append(dict(op, ok=bool(P.pGetProcessedFiles(log))))
        elif k == 'record':
            try:
                ev.append(dict(op, ok=bool(P.pWriteProcessedFile(path)), err=False))
            except Exception as e:
                ev.append(dict(op, ok=False, err=True, what=repr(e)[:200]))
        elif k == 'query':
            tmp = os.path.join(d, 'probe', os.path.basename(path))
            put(tmp, op['v'], op['v'])
            _, _, md5, date = flGetStat(tmp)
            os.remove(tmp)
            dr, nm = os.path.split(path)
            a, v = ('md5sum', md5) if op['by'] == 'content' else ('moddate', date)
            ev.append(dict(op, yes=bool(P.pAlreadyProcessed(dr, nm, a, v))))
        elif k == 'delete':
            try:
                ev.append(dict(op, ok=bool(P.pDeleteDatFile()), err=False))
            except Exception as e:
                ev.append(dict(op, ok=False, err=True, what=repr(e)[:200]))
        elif k == 'stamp':
            P.pArchiveTimestamp(op['want'])
            ev.append(dict(op, now=bool(P.pArchiveTimestamp())))
        elif k == 'archive':
            before = contents()
            with open(path, 'rb') as fh:
                data = fh.read()
            try:
                ok = bool(P.pArchiveFile(path))
            except Exception:
                ok = False
            after = contents()
            new = [n for n in after if n not in before or after[n] != before[n]]
            stem = os.path.splitext(os.path.basename(path))[0]
            c = 0
            for n in after:
                if n.startswith(stem) and after[n] == data:
                    c = op['c']
            ev.append(dict(op, ok=ok, left=os.path.exists(path), content=c,
                           lost=sorted(n for n in before if n not in after or
                                       (after[n] != before[n] and not n.startswith(stem)))
                           + [n for n in new if n in before and n != expected(op)]))
    return ev


def expected(op):
    stem, ext = os.path.splitext(os.path.basename(NAMES[op['f'] - 1]))
    import time
    if op['stamp']:
        t = 1500000000 + op['d'] * 3600 + 7 * op['d']
        return '%s.%s.%s' % (stem, time.strftime('%Y%m%d%H%M', time.localtime(t)), ext.lstrip('.'))
    return '%s.%s' % (stem, ext.lstrip('.'))


def run():
    c = vf.Check('P11')
    c.source()
    tc.quiet()
    c.model_check('ProcLogMC', min_states=1000)
    import Utilities.process
    import Utilities.files
    jobs = []
    N = 280 if c.quick else 2000
    for k in range(N):
        n = c.rng.randint(1, len(NAMES))
        state = {}
        segs, stamp = [], True
        there = False
        for s in range(c.rng.randint(1, 4)):
            ops, known, stamp = [], False, True
            for i in range(c.rng.randint(3, 22)):
                k2 = c.rng.choice(['modify', 'record', 'record', 'query', 'query', 'query', 'load', 'archive',
                                   'stamp', 'delete'] if i else ['load', 'load', 'load', 'modify', 'query', 'record'])
                f = c.rng.randint(1, n)
                if k2 == 'modify' or (k2 in ('record', 'archive') and f not in state):
                    state[f] = (c.rng.randint(1, 8), c.rng.randint(1, 8))
                    ops.append({'t': 'modify', 'f': f, 'c': state[f][0], 'd': state[f][1]})
                if k2 == 'record':
                    ops.append({'t': 'record', 'f': f})
                    there = there or known
                elif k2 == 'query':
                    by = c.rng.choice(['content', 'date'])
                    v = c.rng.randint(1, 8)
                    if f in state and c.rng.random() < .5:
                        v = state[f][0 if by == 'content' else 1]
                    ops.append({'t': 'query', 'f': f, 'by': by, 'v': v})
                elif k2 == 'load':
                    ops.append({'t': 'load'})
                    known = True
                elif k2 == 'delete' and there and known and c.rng.random() < .3:
                    ops.append({'t': 'delete'})
                    there = False
                elif k2 == 'stamp':
                    stamp = c.rng.random() < .5
                    ops.append({'t': 'stamp', 'want': stamp})
                elif k2 == 'archive' and f != 2 and f in state:
                    ops.append({'t': 'archive', 'f': f, 'c': state[f][0], 'd': state[f][1], 'stamp': stamp})
                    del state[f]
            segs.append(ops)
        if c.rng.random() < .7:
            # a later process asks about everything
            segs.append([{'t': 'load'}] + [{'t': 'query', 'f': f, 'by': by, 'v': v}
                                           for f in range(1, n + 1) for by in ('content', 'date') for v in range(1, 9)])
        jobs.append((n, segs))

    def play(job):
        n, segs = job
        d = c.dir('case')
        os.makedirs(os.path.join(d, 'archive'))
        ev = []
        for ops in segs:
            r = c.call(segment, d, ops, None, timeout=60)
            if r[0] != 'ok':
                ev.append({'t': 'crash', 'what': str(r[1])[:500]})
                break
            ev += r[1] + [{'t': 'restart'}]
        shutil.rmtree(d)
        return {'cfg': {'n': n}, 'ev': ev, 'about': {'files': NAMES[:n], 'processes': len(segs)}}
    traces = c.pmap(play, jobs)
    stats = {}
    for t in traces:
        for e in t['ev']:
            stats[e['t']] = stats.get(e['t'], 0) + 1
            if e['t'] == 'query' and e['yes']:
                stats['answered_yes'] = stats.get('answered_yes', 0) + 1
    n = len(traces)
    ctrl = []
    for t in traces:
        for f, bad in (('query', 'yes'), ('record', 'ok'), ('load', 'ok'), ('archive', 'left')):
            ks = [i for i, e in enumerate(t['ev']) if e['t'] == f]
            if ks and len(ctrl) < 60:
                i = c.rng.choice(ks)
                ev = [dict(e) for e in t['ev']]
                ev[i][bad] = not ev[i][bad]
                ctrl.append({'cfg': t['cfg'], 'ev': ev})
    for t in traces + ctrl:
        for e in t['ev']:
            e.pop('stamp', None)
            if 'lost' in e:
                e['lost'] = len(e['lost'])
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('ProcLog', allt, expect_reject=idx)
    c.judge('ProcLog', allt, res, idx)
    c.sample(traces[0])
    c.finish(histories=n, operations=stats)


vf.main(run)
