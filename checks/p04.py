"""P04: the track catalogue is a function of the seeds."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import sched
import tc
import trackenv
import hashlib
import random
import re
import shutil
import numpy as np

WRITES = []


def watch_writes():
    """Record every file the code opens for writing as netCDF."""
    import netCDF4
    base = netCDF4.Dataset

    class Dataset(base):
        def __init__(self, filename, mode='r', *a, **k):
            if mode and mode[0] in 'wx':
                WRITES.append(str(filename))
                fakempi.event(t='write', path=str(filename))
            base.__init__(self, filename, mode, *a, **k)
    netCDF4.Dataset = Dataset


def digest(path):
    """(contents, first storm, identifiers ok) of a track file."""
    trs = trackenv.read_tracks(path)
    sim = int(re.search(r'(\d+)\.nc$', path).group(1))
    h = hashlib.sha256()
    lead = None
    names = True
    for k, (name, tid, tm, rec) in enumerate(trs):
        tid = tuple(int(x) for x in re.findall(r'-?\d+', tid))
        names = names and tid == (k, sim)
        h.update(repr((name, tid)).encode())
        h.update(tm.tobytes())
        for f in rec.dtype.names:
            h.update(np.ascontiguousarray(rec[f]).tobytes())
        if k == 0:
            lead = hashlib.sha256(b''.join(
                np.ascontiguousarray(rec[f]).tobytes()
                for f in ('Longitude', 'Latitude', 'Bearing', 'CentralPressure', 'Speed'))).hexdigest()
    return h.hexdigest(), lead, names, len(trs)


def collect(out, nsim, writes, code):
    """Trace events describing what the run left in the tracks directory."""
    ev, n = [], 0
    tdir = os.path.join(out, 'tracks')
    for p in sorted(set(os.path.realpath(w) for w in writes)):
        k = sum(1 for w in writes if os.path.realpath(w) == p)
        if os.path.dirname(p) == os.path.realpath(tdir):
            ev.append({'t': 'write', 'times': k})
    for f in sorted(os.listdir(tdir)):
        m = re.match(r'^tracks\.(\d+)\.nc$', f)
        if not m:
            ev.append({'t': 'file', 'i': 0, 'v': '', 'f': 'None', 'names': False})
            continue
        v, lead, names, k = digest(os.path.join(tdir, f))
        n += k
        ev.append({'t': 'file', 'i': int(m.group(1)) + 1, 'v': code(v), 'f': code(lead),
                   'names': bool(names)})
    return ev, n


def run():
    c = vf.Check('P04')
    c.source()
    tc.quiet()
    watch_writes()
    c.model_check('CatalogueMC', min_states=50)
    c.model_check('Streams', min_states=50)
    c.refute('Streams', 'StreamsNoRestart', 'SeedsOnly')
    c.refute('Streams', 'StreamsNoPrivate', 'SeedsOnly')
    import TrackGenerator.TrackGenerator as T
    codes = {}

    def code(x):
        return codes.setdefault(x, len(codes) + 1)
    traces = []
    stats = {'single_simulation': 0, 'more_processes_than_simulations': 0, 'zero_seed': 0,
             'runs': 0, 'repeated_in_one_process': 0, 'storms': 0}

    def one(g):
        rng = random.Random('%d/%d' % (c.seed, g))
        st = dict.fromkeys(stats, 0)
        d = c.dir('case')
        scen = []
        nsc = 2
        for s in range(nsc):
            sd = os.path.join(d, 's%d' % s)
            os.makedirs(sd)
            x0 = rng.choice([90, 105, 140, 160])
            south = rng.random() < .7
            y0 = -30 if south else 5
            sec = trackenv.make(sd, rng, (x0, x0 + 25, y0, y0 + 25), k=s,
                                land=rng.choice([0., .2, .5]), strong=rng.random() < .3)
            nsim = [1, 2, 5, 3, 4][(g + 2 * s) % 5] if s == 0 else rng.randint(2, 6)
            # at 25 storms a simulation none is left without a storm
            freq = 25 if g % 3 == s else rng.choice([0.7, 2, 4.5])
            seeds = (rng.randint(1, 10 ** 6), rng.randint(1, 10 ** 6))
            if g == 1 and s == 0:
                seeds = (0, seeds[1])
            if g == 2 and s == 0:
                seeds = (seeds[0], 0)
            sec['TrackGenerator'].update(
                NumSimulations=nsim, NumTimeSteps=rng.choice([20, 40]),
                TimeStep=rng.choice([1, 3, 6]), Frequency=freq,
                SeasonSeed=seeds[0], TrackSeed=seeds[1])
            if rng.random() < .5:
                sec['TrackGenerator']['YearsPerSimulation'] = rng.choice([1, 2, 3])
            ini = tc.write_ini(os.path.join(sd, 'c.ini'), sec)
            scen.append({'ini': ini, 'out': sec['Output']['Path'], 'nsim': nsim, 'seeds': seeds,
                         'all': freq == 25})
            st['single_simulation'] += nsim == 1
            st['zero_seed'] += 0 in seeds
        ev = []
        problem = None

        def reset(s):
            p = os.path.join(scen[s]['out'], 'tracks')
            shutil.rmtree(p)
            os.makedirs(p)
        # several runs in one process (a process reads one configuration)
        reps = [rng.randint(1, 3), rng.randint(1, 2)]

        def serial(s):
            fakempi.no_mpi()
            res = []
            for _ in range(reps[s]):
                del WRITES[:]
                T.run(scen[s]['ini'], callback=(lambda *a: None) if s else None)
                # keep the files aside for the parent
                keep = os.path.join(d, 'keep%d-%d' % (s, len(res)))
                os.makedirs(keep)
                shutil.copytree(os.path.join(scen[s]['out'], 'tracks'), os.path.join(keep, 'tracks'))
                res.append((s, keep, [w.replace(scen[s]['out'], keep) for w in WRITES]))
                reset(s)
            return res
        for s in range(nsc):
            r = c.call(serial, s, timeout=200)
            if r[0] != 'ok':
                problem = r
                ev += [{'t': 'run', 's': s + 1, 'n': 1}, {'t': 'fail', 'what': str(r[1])[:300]}]
                continue
            for s, keep, writes in r[1]:
                e, k = collect(keep, scen[s]['nsim'], writes, str)
                st['storms'] += k
                ev += [{'t': 'run', 's': s + 1, 'n': 1}] + e + [{'t': 'end'}]
                shutil.rmtree(keep)
                st['runs'] += 1
                st['repeated_in_one_process'] += reps[s] > 1
        for s in range(nsc):
            S = scen[s]['nsim']
            ns = rng.sample([1, 2, 3, 4, 5, S + 1], 2 if c.quick else 4)
            if s == 0 and g % 2 == 0:
                ns[0] = max(2, S + 1)
            elif s == 0:
                ns[0] = 2
            for n in ns:
                reset(s)
                ini = scen[s]['ini']

                def target(rank, size):
                    T.run(ini)
                R = fakempi.run(n, target, fakempi.random_picker('%d/%d/%d' % (c.seed, g, n)),
                                rngseed=c.seed + g)
                writes = [x[2]['path'] for x in R.trace if x[0] == 'event' and x[2]['t'] == 'write']
                ev.append({'t': 'run', 's': s + 1, 'n': n})
                end = sched.ending(R)
                bad = [x for x in end if x['t'] in ('stuck', 'lost') or not x.get('ok', True)]
                if bad:
                    problem = R.problem()
                    ev.append({'t': bad[0]['t'] if bad[0]['t'] != 'end' else 'fail'})
                e, k = collect(scen[s]['out'], S, writes, str)
                st['storms'] += k
                ev += e + [{'t': 'end'}]
                st['runs'] += 1
                st['more_processes_than_simulations'] += n > S
        about = {'simulations': [x['nsim'] for x in scen], 'seeds': [x['seeds'] for x in scen],
                 'serial_runs': reps, 'problem': str(problem)[:400] if problem else None}
        shutil.rmtree(d)
        return {'cfg': {'nsim': [x['nsim'] for x in scen], 'all': [x['all'] for x in scen]}, 'ev': ev, 'about': about}, st
    for t, st in c.pmap(one, range(21 if c.quick else 105), timeout=700):
        for k in st:
            stats[k] += st[k]
        for e in t['ev']:
            if e['t'] == 'file':
                e.update(v=code(e['v']), f=0 if e['f'] == 'None' else code(e['f']))
        traces.append(t)
        c.sample(t['about'])
    n = len(traces)
    ctrl = []
    for t in traces:
        ks = [i for i, e in enumerate(t['ev']) if e['t'] == 'file']
        ends = [i for i, e in enumerate(t['ev']) if e['t'] == 'end']
        late = [i for i in ks if len(ends) > 2 and i > ends[2]]
        if not late:
            continue
        i = c.rng.choice(late)
        ev = [dict(e) for e in t['ev']]
        ev[i]['v'] = 999999
        ctrl.append({'cfg': t['cfg'], 'ev': ev})
        ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:i] + t['ev'][i + 1:]})
        ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:i] + [t['ev'][i]] + t['ev'][i:]})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Catalogue', allt, expect_reject=idx)
    c.judge('Catalogue', allt, res, idx)
    c.finish(**stats)


vf.main(run)
