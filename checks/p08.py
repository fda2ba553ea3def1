"""P08: hazard of a cell is a function of its own wind history, by the rules."""
import math
import os
import shutil
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import numpy as np

VARS = ['lat', 'lon', 'ari', 'loc', 'scale', 'shp', 'wspd', 'wspdupper', 'wspdlower']
ND = -9999.


def setup(c, d, files, lon, lat, lim, method, nsim, minrec, years, ci=False, sample=5, yps=1):
    out = os.path.join(d, 'output')
    wf = os.path.join(out, 'windfield')
    os.makedirs(wf)
    os.makedirs(os.path.join(out, 'hazard'))
    for name, w in files:
        tc.write_gust(os.path.join(wf, name), lon, lat, w)
    return tc.write_ini(os.path.join(d, 'c.ini'), {
        'Region': {'gridLimit': tc.limits(*lim)},
        'TrackGenerator': {'NumSimulations': nsim, 'YearsPerSimulation': yps},
        'Hazard': {'MinimumRecords': minrec, 'CalculateCI': str(ci),
                   'ExtremeValueDistribution': method,
                   'Years': ','.join(str(y) for y in years),
                   'SampleSize': sample, 'PercentileRange': 90, 'PlotSpeedUnits': 'mps'},
        'Output': {'Path': out}})


def execute(ini, steps, listing, rng):
    def go():
        tc.quiet()
        fakempi.no_mpi()
        fakempi.shuffle_listing(listing)
        import random
        random.seed(rng)
        import hazard
        import Utilities.parallel as par
        par.attemptParallel()

        class Small(hazard.TileGrid):
            def __init__(self, gl, lo, la, xstep=steps[0], ystep=steps[1]):
                super(Small, self).__init__(gl, lo, la, xstep, ystep)
        hazard.TileGrid = Small
        hazard.run(ini)
        p = os.path.join(os.path.dirname(ini), 'output', 'hazard', 'hazard.nc')
        return tc.read_nc(p, VARS)
    return go


class Coder(object):
    """Order-preserving codes of all finite values; assigned at the end."""
    def __init__(self):
        self.vals = set()

    def add(self, a):
        for x in np.asarray(a).ravel():
            x = float(x)
            if x not in (ND, 0.) and math.isfinite(x):
                self.vals.add(x)

    def done(self):
        pos = sorted(v for v in self.vals if v > 0)
        neg = sorted((v for v in self.vals if v < 0), reverse=True)
        self.m = {v: i + 1 for i, v in enumerate(pos)}
        self.m.update({v: -10 - i for i, v in enumerate(neg)})

    def __call__(self, x):
        x = float(x)
        if x == ND:
            return -1
        if x == 0.:
            return 0
        if not math.isfinite(x):
            return -2
        return self.m[x]


def scenario(c, rng):
    method = rng.choice(['GEV', 'GEV', 'emp', 'power', 'GPD'])
    nsim = rng.choice([8, 12, 15])
    minrec = rng.choice([1, 3, 5])
    years = rng.choice([[2, 5], [2, 4, 7], [5, 2, 7], [7, 4, 2], [3]])
    yps = rng.choice([1, 1, 1, 2, 3])
    years = [y * yps for y in years]
    nx, ny = rng.choice([(2, 2), (3, 2), (2, 3), (4, 1), (1, 4), (3, 3)])
    mx, my = rng.randint(0, 2), rng.randint(0, 2)
    res = rng.choice([0.5, 1.0, 0.25])
    lon = 100. + res * (rng.randrange(40) + np.arange(nx + 2 * mx))
    lat = -30. + res * (rng.randrange(40) + np.arange(ny + 2 * my))
    # one file per event; some years have none, some several
    names = []
    for y in range(nsim):
        for k in rng.sample(range(1, 40), rng.choice([0, 1, 1, 1, 2, 3])):
            names.append((k, y))
    if len(names) < 7:
        return scenario(c, rng)
    rng.shuffle(names)
    base = 8 * 15
    W = {}
    for (k, y) in names:
        w = np.zeros((len(lat), len(lon)), dtype=int)
        for j in range(len(lat)):
            for i in range(len(lon)):
                w[j, i] = base + rng.randrange(0, 8 * 40)
        W[(k, y)] = w
    # sparse cells: keep wind only in a chosen number of years / events
    for j in range(ny):
        for i in range(nx):
            kind = rng.randrange(5)
            yrs = sorted(set(y for k, y in names))
            if kind == 0:
                keep = set()
            elif kind == 1:
                keep = set(rng.sample(yrs, min(len(yrs), minrec)))
            elif kind == 2:
                keep = set(rng.sample(yrs, min(len(yrs), max(0, minrec - 1))))
            else:
                keep = set(yrs)
            first = set()
            for (k, y) in sorted(names):
                drop = y not in keep
                if kind in (1, 2) and method != 'GEV':
                    drop = drop or y in first       # exactly one event per kept year
                first.add(y)
                if drop:
                    W[(k, y)][my + j, mx + i] = 0
    # twin cells: identical history at two places
    if nx > 1 and rng.random() < 0.5:
        for q in W:
            W[q][my, mx + nx - 1] = W[q][my, mx]
    return dict(method=method, nsim=nsim, yps=yps, minrec=minrec, years=years, nx=nx, ny=ny, mx=mx,
                my=my, lon=lon, lat=lat, names=names, W=W,
                steps=(rng.choice([1, 2, 100]), rng.choice([1, 2, 100])))


def sample_of(s, i, j):
    if s['method'] == 'GEV':
        v = []
        for y in range(s['nsim']):
            v.append(max([s['W'][q][j, i] for q in s['names'] if q[1] == y] or [0]))
    else:
        v = [s['W'][q][j, i] for q in s['names']]
    return tuple(sorted(int(x) for x in v))


def run():
    c = vf.Check('P08')
    c.source()
    tc.quiet()
    import hazard               # noqa: import before forking
    c.model_check('HazardCell')
    traces = []
    refs = {}
    nref = 0
    budget = time.time() + (50 if c.quick else 420)
    nscen = 45 if c.quick else 500
    for n in range(nscen):
        if time.time() > budget:
            break
        s = scenario(c, c.rng)
        d = c.dir('main')
        lim = (float(s['lon'][s['mx']]), float(s['lat'][s['my']]),
               float(s['lon'][s['mx'] + s['nx'] - 1]), float(s['lat'][s['my'] + s['ny'] - 1]))
        files = [('gust.%03d-%05d.nc' % q, s['W'][q] / 8.) for q in s['names']]
        ci = n % 5 == 4
        ini = setup(c, d, files, s['lon'], s['lat'], lim, s['method'], s['nsim'],
                    s['minrec'], s['years'], ci, 4, s['yps'])
        beside = n % 4 == 2
        if beside:
            tc.write_companions(os.path.join(d, 'output', 'windfield'), s['lon'], s['lat'],
                                s['names'])
        r = c.call(execute(ini, s['steps'], c.seed + n, n))
        shutil.rmtree(d)
        cells = [(j, i) for j in range(s['ny']) for i in range(s['nx'])]
        cfg = {'years': s['years'], 'minrec': s['minrec'], 'method': s['method'],
               'nsim': s['nsim'], 'yps': s['yps'],
               'files': [{'year': q[1],
                          'w': [int(s['W'][q][s['my'] + j, s['mx'] + i]) for j, i in cells]}
                         for q in s['names']],
               'lon': [int(round(v * 1000)) for v in s['lon'][s['mx']:s['mx'] + s['nx']]],
               'lat': [int(round(v * 1000)) for v in s['lat'][s['my']:s['my'] + s['ny']]],
               'nx': s['nx'], 'ny': s['ny']}
        about = {k: s[k] for k in ('method', 'nsim', 'yps', 'minrec', 'years', 'nx', 'ny', 'steps')}
        about['other_files'] = beside
        if r[0] != 'ok':
            traces.append({'cfg': cfg, 'ev': [{'t': 'fail', 'what': str(r[1])[:800]}],
                           'about': dict(about, problem=str(r[1])[:800])})
            continue
        v = r[1]
        coder = Coder()
        for k in ('loc', 'scale', 'shp', 'wspd', 'wspdupper', 'wspdlower'):
            coder.add(v[k])
        want = {}
        for j, i in cells:
            sm = sample_of(s, s['mx'] + i, s['my'] + j)
            nv = sum(1 for x in sm if x > 0)
            if nv and (s['method'] == 'emp' or nv >= s['minrec']):
                want[sm] = None
        # reference runs have one year in every simulation: the level of T years from
        # maxima over n years is that of T / n blocks, and events keep their rate per year
        gev = s['method'] == 'GEV'
        rsim = s['nsim'] if gev else s['nsim'] * s['yps']
        ryears = [y // s['yps'] for y in s['years']] if gev else s['years']
        for sm in want:
            key = (s['method'], rsim, tuple(ryears), sm)
            if key not in refs:
                d = c.dir('ref')
                # one file per year (annual maxima) or per event, in sorted order
                fl = [('gust.001-%05d.nc' % y if s['method'] == 'GEV' else
                       'gust.%03d-%05d.nc' % (y + 1, y % rsim),
                       np.full((1, 1), x / 8.)) for y, x in enumerate(sm)]
                ini = setup(c, d, fl, np.array([120.]), np.array([-20.]),
                            (120., -20., 120., -20.), s['method'], rsim, 1, ryears)
                refs[key] = c.call(execute(ini, (100, 100), 0, 0))
                shutil.rmtree(d)
                nref += 1
            want[sm] = refs[key]
            if refs[key][0] == 'ok':
                for k in ('loc', 'scale', 'shp', 'wspd'):
                    coder.add(refs[key][1][k])
        coder.done()

        def val(o, j, i):
            return {'w': [coder(x) for x in o['wspd'][:, j, i]],
                    'p': [coder(o[k][j, i]) for k in ('loc', 'scale', 'shp')]}
        ev = [{'t': 'axes', 'years': [int(x) for x in v['ari']],
               'lon': [int(round(float(x) * 1000)) for x in v['lon']],
               'lat': [int(round(float(x) * 1000)) for x in v['lat']]}]
        for sm, rr in want.items():
            if rr[0] == 'ok':
                ev.append({'t': 'ref', 's': list(sm), 'v': val(rr[1], 0, 0)})
            else:
                ev.append({'t': 'fail', 'what': str(rr[1])[:500]})
        shape_ok = v['loc'].shape == (s['ny'], s['nx'])
        order = list(enumerate(cells))
        c.rng.shuffle(order)
        if shape_ok:
            for k, (j, i) in order:
                w8 = [float(x) * 8 for x in v['wspd'][:, j, i]]
                ev.append({'t': 'cell', 'c': k + 1, 'v': val(v, j, i),
                           'lo': [math.floor(x + 1e-3) if math.isfinite(x) else -99 for x in w8],
                           'hi': [math.ceil(x - 1e-3) if math.isfinite(x) else -99 for x in w8]})
                if ci:
                    for a in range(len(s['years'])):
                        ev.append({'t': 'range', 'lo': coder(v['wspdlower'][a, j, i]),
                                   'hi': coder(v['wspdupper'][a, j, i])})
        traces.append({'cfg': cfg, 'ev': ev, 'about': about})
        if n < 2:
            c.sample({'about': about, 'files': len(files), 'events': ev[:4]})
    n = len(traces)
    ctrl = []
    for t in traces[:12]:
        ks = [k for k, e in enumerate(t['ev']) if e['t'] == 'cell']
        if not ks:
            continue
        ev = [dict(e) for e in t['ev']]
        k = c.rng.choice(ks)
        ev[k] = dict(ev[k], v={'w': [x + 100000 for x in ev[k]['v']['w']], 'p': ev[k]['v']['p']})
        ctrl.append({'cfg': t['cfg'], 'ev': ev})
        ctrl.append({'cfg': t['cfg'], 'ev': [e for i, e in enumerate(t['ev']) if i != k]})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('HazardCell', allt, expect_reject=idx)
    for i, r in enumerate(res):
        if i < n and r and r[1].startswith('machinery'):
            raise vf.CheckError('sample without reference in trace %d' % i)
    c.judge('HazardCell', allt, res, idx)
    c.finish(scenarios=n, reference_fits=nref,
             cells=sum(t['cfg']['nx'] * t['cfg']['ny'] for t in traces))


vf.main(run)
