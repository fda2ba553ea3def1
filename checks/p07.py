"""P07: interrupted and resumed wind-field runs."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import crash
import fakempi
import tc
import trackenv
import random
import shutil
import numpy as np

VARS = ('lat', 'lon', 'vmax', 'ua', 'va', 'slp')


def load(path):
    try:
        r = tc.read_nc(path, VARS)
    except Exception:
        return None
    return r if set(r) == set(VARS) else None


def same(a, b):
    return a is not None and all(a[k].shape == b[k].shape and
                                 np.array_equal(a[k], b[k], equal_nan=True) for k in VARS)


def yielding():
    """Other processes may run before a file is created and before it is closed."""
    import netCDF4
    base = netCDF4.Dataset

    class Dataset(base):
        def __init__(self, filename, mode='r', *a, **k):
            self.__dict__['_made'] = bool(mode) and mode[0] in 'wx'
            if self.__dict__['_made']:
                fakempi.point('create')
            base.__init__(self, filename, mode, *a, **k)

        def close(self):
            if self.__dict__.get('_made'):
                fakempi.point('close')
            return base.close(self)
    netCDF4.Dataset = Dataset
    for m in list(sys.modules.values()):
        if getattr(m, 'Dataset', None) is base:
            m.Dataset = Dataset


DAMAGE = ['empty', 'short', 'text', 'variables', 'short']


def damage(path, names, how, rng):
    """Spoil one file the way a cut transfer or a full disk does."""
    n = rng.choice(names)
    p = os.path.join(path, n)
    old = open(p, 'rb').read() if os.path.exists(p) else b''
    if how == 'empty':
        data = b''
    elif how == 'short' and len(old) > 200:
        data = old[:rng.randint(1, len(old) - 1)]
    else:
        data = b'not a wind field\n' * 40
    if how == 'variables':
        from netCDF4 import Dataset
        nc = Dataset(p, 'w')
        nc.createDimension('lat', 3)
        nc.createDimension('lon', 3)
        for v in list(VARS)[:rng.randint(0, 5)]:
            nc.createVariable(v, 'f4', (v,) if v in ('lat', 'lon') else ('lat', 'lon'))
        nc.close()
        return
    with open(p, 'wb') as fh:
        fh.write(data)


def run():
    c = vf.Check('P07')
    c.source(exts=('Utilities._akima', 'Utilities._maputils', 'PressureInterface._pressureProfile',
                   'wind._windmodels'))
    tc.quiet()
    c.model_check('GustWriter', min_states=1000)
    c.model_check('GustWriter', 'GustWriterInPlace', min_states=1000)
    c.refute('GustWriter', 'GustWriterMistaken', 'NeverMistaken')
    import wind
    from wind import windmodels
    from Utilities import track
    import PressureInterface.pressureProfile
    import tqdm
    try:
        import Utilities.version
    except Exception:
        pass
    traces = []
    stats = {'interruptions': 0, 'killed': 0, 'interrupted': 0, 'io_errors': 0, 'runs_completed': 0, 'swept_lines': 0, 'damaged_files': 0,
             'files_compared': 0, 'broken_files_seen_after_a_cut': 0, 'finished_files_seen_after_a_cut': 0}
    lines = set()
    N = 10 if c.quick else 60
    sweeps = (0,) if c.quick else range(0, 60, 12)
    for k in range(N):
        d = c.dir('case')
        res = c.rng.choice([.5, .25])
        lim = {'xMin': 150., 'xMax': 152., 'yMin': -18., 'yMax': -16.}
        box = (150., 152., -18., -16.)
        nfiles = c.rng.choice([1, 1, 2, 3]) if k not in sweeps else 1
        need = []
        while not any(need):
            files = [[trackenv.random_track(c.rng, box, c.rng.randint(2, 5), margin=.5,
                                           far=.35)
                      for _ in range(2 if k in sweeps else c.rng.randint(2, 4) if nfiles == 1 else c.rng.randint(1, 2))]
                     for _ in range(nfiles)]
            need = [any(box[0] <= r[2] <= box[1] and box[2] <= r[3] <= box[3] for r in t) for f in files for t in f]
        sims = sorted(c.rng.sample(range(12), nfiles))
        first = c.rng.choice([0, 0, 99, 999])
        ids = [[first * (i > 0) + i for i in range(len(f))] for f in files]
        names = ['gust.%03d-%05d.nc' % (i, s) for s, f in zip(sims, ids) for i in f]
        evo = k % 5 == 4
        per = c.rng.choice([2, 3, 4]) if c.quick else 5

        def prepare(name):
            out = os.path.join(d, name)
            for q in ('tracks', 'windfield'):
                os.makedirs(os.path.join(out, q))
            for s, f, i in zip(sims, files, ids):
                trackenv.write_tracks(os.path.join(out, 'tracks', 'tracks.%05d.nc' % s), f, s, i)
            sec = {'Region': {'gridLimit': repr(lim)}, 'Output': {'Path': out},
                   'WindfieldInterface': {'profileType': 'powell', 'windFieldType': 'kepert', 'beta': 1.3,
                                          'beta1': 1.5, 'beta2': 1.4, 'thetaMax': 70., 'Margin': 1.0,
                                          'Resolution': res, 'Domain': 'bounded'}}
            if evo:
                sec['Timeseries'] = {'Windfields': 'True'}
            return out, tc.write_ini(os.path.join(d, name + '.ini'), sec)
        out, ini = prepare('base')

        def base():
            fakempi.no_mpi()
            return crash.record(c.src, lambda: wind.run(ini), os.path.join(out, 'windfield'))[1:]
        r = c.call(base, timeout=120)
        if r[0] != 'ok':
            traces.append({'cfg': {'need': need}, 'ev': [{'t': 'start'}, {'t': 'done', 'f': ['absent'] * len(names),
                                                                          'failed': True, 'extra': 0}],
                           'about': {'error': str(r[1])[:600], 'uninterrupted': True}})
            shutil.rmtree(d)
            continue
        seq, new = r[1]
        hot = sorted({a for x in new for a in range(max(1, x - 2), min(len(seq), x + 110))})
        ref = [load(os.path.join(out, 'windfield', n)) for n in names]

        def observe(out):
            f = []
            for n, want in zip(names, ref):
                p = os.path.join(out, 'windfield', n)
                stats['files_compared'] += 1
                if not os.path.exists(p):
                    f.append('absent')
                else:
                    f.append('whole' if want is not None and same(load(p), want) else 'bad')
            extra = [x for x in os.listdir(os.path.join(out, 'windfield'))
                     if x.startswith('gust') and x.endswith('.nc') and x not in names]
            return f, len(extra)
        if any(w and x is None for w, x in zip(need, ref)):
            traces.append({'cfg': {'need': need}, 'ev': [{'t': 'start'}, dict(zip(('t', 'failed', 'f', 'extra'), (
                'done', False, observe(out)[0], 0)))], 'about': {'uninterrupted': True, 'files': names}})
            shutil.rmtree(d)
            continue
        pts = crash.points(c.rng, seq, per * 2 + 4)
        if k in sweeps and hot:
            # every line executed while one file is being written
            i = c.rng.randrange(max(1, len(new) - 1))
            x, last = new[i], min(len(seq) + 1, new[i] + 170)
            if len(new) > i + 1 and last < new[i + 1]:           # between two files: take the writing of the next
                x, last = new[i + 1], min(len(seq) + 1, new[i + 1] + 170)
            todo = [(at, how) for at in range(max(1, x - 2), last) if seq[at - 1] != seq[at - 2]
                    for how in (('int', 'kill') if not c.quick or at % 3 == 0 else ('int',))]

            def sweep(job):
                at, how = job
                out, ini = prepare('sweep-%d-%s' % job)

                def cut():
                    fakempi.no_mpi()
                    crash.interrupt(c.src, lambda: wind.run(ini), at, how)

                def again():
                    fakempi.no_mpi()
                    wind.run(ini)
                c.call(cut, timeout=60)
                f, _ = observe(out)
                r = c.call(again, timeout=60)
                g, extra = observe(out)
                about = {'tracks_per_file': [len(y) for y in files], 'cut': [at, how],
                         'line': '%s:%d' % seq[at - 1]}
                if r[0] != 'ok':
                    about['problem'] = str(r[1])[:600]
                shutil.rmtree(out)
                return {'cfg': {'need': need}, 'about': about,
                        'ev': [{'t': 'start'}, {'t': 'cut', 'f': f}, {'t': 'start'},
                               {'t': 'done', 'f': g, 'failed': r[0] != 'ok', 'extra': extra}]}
            for (at, how), t in zip(todo, c.pmap(sweep, todo)):
                f = t['ev'][1]['f']
                stats['swept_lines'] += 1
                stats['broken_files_seen_after_a_cut'] += f.count('bad')
                stats['finished_files_seen_after_a_cut'] += f.count('whole')
                stats['files_compared'] += 2 * len(f)
                lines.add(seq[at - 1])
                traces.append(t)
        jobs = [(per + q, [{'processes': n, 'order': c.rng.randint(0, 10 ** 6)}]) for q, n in enumerate((3, 4, 2))]
        for j in range(per):
            hist = []
            for q in range(c.rng.choice([1, 1, 2])):
                n = c.rng.choice([1, 1, 2, 3])
                plan = {}
                for rank in range(n):
                    if rank == 0 or c.rng.random() < .6:
                        at = c.rng.choice(hot) if hot and c.rng.random() < .5 else \
                            pts.pop() if pts else c.rng.randint(1, len(seq))
                        plan[rank] = (max(1, at // (n if c.rng.random() < .5 else 1)),
                                      c.rng.choice(['kill', 'kill', 'int', 'io']))
                hist.append({'processes': n, 'cut': plan, 'order': c.rng.randint(0, 10 ** 6)})
                if c.rng.random() < .35:
                    hist.append({'damage': c.rng.choice(DAMAGE), 'seed': c.rng.randint(0, 10 ** 6)})
            hist.append({'processes': c.rng.choice([1, 2, 3, 4]), 'order': c.rng.randint(0, 10 ** 6)})
            jobs.append((j, hist))

        def history(job):
            j, hist = job
            out, ini = prepare('run%d' % j)
            ev = []
            about = {'tracks_per_file': [len(x) for x in files], 'history': hist, 'evolution_files': evo}
            for h in hist:
                if 'damage' in h:
                    damage(os.path.join(out, 'windfield'), names, h['damage'], random.Random(h['seed']))
                    ev.append({'t': 'damage', 'f': observe(out)[0]})
                    continue
                plan = h.get('cut', {})

                def target(rank, n):
                    fakempi.shuffle_listing('%d/%d' % (h['order'], rank))
                    yielding()
                    if rank not in plan:
                        return wind.run(ini)
                    at, how = plan[rank]
                    return crash.interrupt(c.src, lambda: wind.run(ini), at, how)
                R = fakempi.run(h['processes'], target, fakempi.random_picker(h['order']), timeout=60)
                f, extra = observe(out)
                if plan:
                    ev += [{'t': 'start'}, {'t': 'cut', 'f': f}]
                else:
                    ev += [{'t': 'start'}, {'t': 'done', 'f': f, 'failed': not R.ok, 'extra': extra}]
                    if not R.ok:
                        about['problem'] = str(R.problem())[:800]
            shutil.rmtree(out)
            return {'cfg': {'need': need}, 'ev': ev, 'about': about}
        for (j, hist), t in zip(jobs, c.pmap(history, jobs)):
            for h in hist:
                for x, y in h.get('cut', {}).items():
                    stats['interruptions'] += 1
                    stats[{'kill': 'killed', 'int': 'interrupted', 'io': 'io_errors'}[y[1]]] += 1
                    if y[0] <= len(seq):
                        lines.add(seq[y[0] - 1])
                stats['damaged_files'] += 'damage' in h
            for e in t['ev']:
                if e['t'] == 'cut':
                    stats['broken_files_seen_after_a_cut'] += e['f'].count('bad')
                    stats['finished_files_seen_after_a_cut'] += e['f'].count('whole')
                if 'f' in e:
                    stats['files_compared'] += len(e['f'])
            stats['runs_completed'] += not t['ev'][-1]['failed']
            traces.append(t)
            c.sample({'about': t['about'], 'events': t['ev']})
        shutil.rmtree(d)
    for procs in (1, 2, 3):              # a simulation without any storm
        d = c.dir('none')
        for q in ('tracks', 'windfield'):
            os.makedirs(os.path.join(d, q))
        ini = tc.write_ini(os.path.join(d, 'c.ini'), {
            'Region': {'gridLimit': repr({'xMin': 150., 'xMax': 152., 'yMin': -18., 'yMax': -16.})},
            'Output': {'Path': d},
            'WindfieldInterface': {'profileType': 'powell', 'windFieldType': 'kepert', 'Margin': 1.0,
                                   'Resolution': .5, 'Domain': 'bounded'}})
        R = fakempi.run(procs, lambda rank, n: wind.run(ini), fakempi.random_picker(c.seed), timeout=60)
        about = {'tracks_per_file': [], 'processes': procs}
        if not R.ok:
            about['problem'] = str(R.problem())[:800]
        traces.append({'cfg': {'need': []}, 'about': about,
                       'ev': [{'t': 'start'}, {'t': 'done', 'f': [], 'failed': not R.ok,
                                               'extra': len(os.listdir(os.path.join(d, 'windfield')))}]})
        shutil.rmtree(d)
    n = len(traces)
    ctrl = []
    for t in traces[:6]:
        e = t['ev'][-1]
        for i, s in ((e['f'].index('whole'), 'bad'), (e['f'].index('whole'), 'absent')) if 'whole' in e['f'] else ():
            if s == 'absent' and not t['cfg']['need'][i]:
                continue
            f = list(e['f'])
            f[i] = s
            ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:-1] + [dict(e, f=f)]})
        ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:-1] + [dict(e, extra=1)]})
        if 'whole' in e['f']:
            ctrl.append({'cfg': t['cfg'], 'ev': t['ev'] + [{'t': 'start'}, {'t': 'cut', 'f': ['bad'] * len(e['f'])}]})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('GustFiles', allt, expect_reject=idx)
    c.judge('GustFiles', allt, res, idx)
    c.finish(scenarios=N, distinct_lines_interrupted=len(lines), **stats)


vf.main(run)
