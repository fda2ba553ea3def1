"""P15: grid cells and the observations that make up their statistics."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import math
import random
import shutil
import numpy as np


def domain(rng, multiple=True):
    sx, sy = rng.choice([(1000, 1000), (2000, 2000), (5000, 5000), (500, 500), (2500, 1000), (1000, 250), (3000, 1500)])
    nx, ny = rng.randint(1, 6), rng.randint(1, 6)
    x0 = rng.choice([0, -sx, -3 * sx, 110000, 350000 - (350000 % 250), -180000, 178500, 99500, -2250])
    y1 = rng.choice([0, sy, 2 * sy, -5000, -10500, 30000, 7250])
    x1, y0 = x0 + nx * sx, y1 - ny * sy
    if not multiple and rng.random() < .5:
        x1 -= rng.choice([0, 250, sx // 2 - sx // 2 % 250]) if nx > 1 else 0
        y0 += rng.choice([0, 250, sy // 2 - sy // 2 % 250]) if ny > 1 else 0
    return {'x0': x0, 'x1': x1, 'y0': y0, 'y1': y1, 'sx': sx, 'sy': sy}


def dicts(g):
    f = 1000.
    return ({'xMin': g['x0'] / f, 'xMax': g['x1'] / f, 'yMin': g['y0'] / f, 'yMax': g['y1'] / f},
            {'x': g['sx'] / f, 'y': g['sy'] / f})


def numbering(seed):
    import Utilities.stats as stats
    rng = random.Random(seed)
    g = domain(rng, False)
    gl, gs = dicts(g)
    ev = [{'t': 'max', 'n': int(stats.maxCellNum(gl, gs))}]
    n = ev[0]['n']
    for i in range(40):
        def coord(a, b, s):
            r = rng.random()
            if r < .4:
                return rng.randint(a - s, b + s)
            if r < .8:
                return a + s * rng.randint(-1, (b - a) // s + 1) + rng.choice([0, 0, 1, -1, s // 2])
            return rng.choice([a, b, a - 1, b + 1, a + 1, b - 1])
        x, y = coord(g['x0'], g['x1'], g['sx']), coord(g['y0'], g['y1'], g['sy'])
        if rng.random() < .5:
            y = g['y1'] - rng.randint(0, 6) * g['sy']
        try:
            c = int(stats.getCellNum(x / 1000., y / 1000., gl, gs))
        except ValueError:
            c = -1
        ev.append({'t': 'num', 'x': x, 'y': y, 'cell': c})
    for c in sorted({0, 1, n, n + 1, n + 2, -1, -5} | {rng.randint(0, max(1, n)) for _ in range(15)}):
        try:
            lon, lat = stats.getCellLonLat(c, gl, gs)
            r = {'ok': True, 'x': int(round(lon * 1000)), 'y': int(round(lat * 1000))}
        except IndexError:
            r = {'ok': False, 'x': 0, 'y': 0}
        ev.append(dict(r, t='corner', cell=c, valid=bool(stats.validCellNum(c, gl, gs))))
    return dict(g, ix=g['sx'], iy=g['sy'], min=0, edge='north', obs=[], angular=False), ev


def observations(rng, g, angular, missing):
    obs, n = [], rng.choice([3, 10, 25, 50])
    alike = rng.random() < .2
    for i in range(n):
        r = rng.random()
        if r < .7:
            x, y = rng.randint(g['x0'], g['x1']), rng.randint(g['y0'], g['y1'])
        elif r < .85:      # on the sides of cells
            x = g['x0'] + g['sx'] * rng.randint(0, (g['x1'] - g['x0']) // g['sx'])
            y = rng.choice([rng.randint(g['y0'], g['y1']), g['y1'] - g['sy'] * rng.randint(0, (g['y1'] - g['y0']) // g['sy'])])
        else:
            x, y = rng.randint(g['x0'] - 3000, g['x1'] + 3000), rng.randint(g['y0'] - 3000, g['y1'] + 3000)
        v = rng.randint(0, 359) if angular else rng.randint(1, 3) if alike and rng.random() < .8 else rng.randint(0, 30)
        if alike and rng.random() < .6:
            v = 7
        obs.append({'x': x, 'y': y, 'ok': rng.random() < .85, 'land': int(rng.random() < .3), 'v': v})
    lonlat = np.array([[o['x'] / 1000., o['y'] / 1000., o['land'] * rng.choice([1., 1., 2.])] for o in obs])
    par = np.array([float(o['v']) if o['ok'] else (float('nan') if rng.random() < .1 else missing) for o in obs])
    return obs, lonlat, par


def write_table(path, rows, header):
    with open(path, 'w') as fh:
        fh.write('% ' + header + '\n')
        for r in rows:
            fh.write(','.join('%.6f' % x for x in r) + '\n')


def statistics(d, seed):
    from StatInterface.generateStats import GenerateStats
    from StatInterface.GenerateDistributions import GenerateDistributions
    rng = random.Random(seed)
    g = domain(rng)
    gl, gs = dicts(g)
    ix, iy = rng.choice([(g['sx'], g['sy']), (g['sx'] // 2, g['sy'] // 2), (1000, 500), (250, 1000)])
    inc = {'x': ix / 1000., 'y': iy / 1000.}
    angular = rng.random() < .25
    missing = rng.choice([sys.maxsize, sys.maxsize, -9999.])
    obs, lonlat, par = observations(rng, g, angular, missing)
    mn = rng.choice([1, 2, 3, 5, 10])
    cfg = dict(g, ix=ix, iy=iy, min=mn, edge='north', obs=obs, angular=angular)
    ncell = ((g['x1'] - g['x0']) // g['sx']) * ((g['y1'] - g['y0']) // g['sy'])
    cells = sorted(rng.sample(range(ncell), min(ncell, 6)))
    ev, found = [], {}
    gen = GenerateStats(par, lonlat, gl, gs, inc, minSample=mn, angular=angular, missingValue=missing, calculateLater=True)
    gen.lonLat, gen.param = lonlat, par
    for c in cells:
        for land in (0, 1):
            try:
                s = [int(round(v)) for v in gen.extractParameter(c, bool(land))]
                found[(c, land)] = s
                ev.append({'t': 'sample', 'cell': c, 'land': land, 'ok': True, 'vals': s})
            except StopIteration:
                ev.append({'t': 'sample', 'cell': c, 'land': land, 'ok': False, 'vals': []})
    try:
        if rng.random() < .4:
            a, b = os.path.join(d, 'll'), os.path.join(d, 'par')
            write_table(a, lonlat, 'Longitude, Latitude, LSFlag')
            write_table(b, [[p] for p in par], 'values')
            gen = GenerateStats(b, a, gl, gs, inc, minSample=mn, angular=angular, missingValue=missing)
        else:
            gen = GenerateStats(par, lonlat, gl, gs, inc, minSample=mn, angular=angular, missingValue=missing)
        co = gen.coeffs
    except StopIteration:
        co = None
        if len(found) == 2 * ncell:
            ev.append({'t': 'the statistics fail although every cell has enough observations'})
    if co is not None:
        for (c, land), s in found.items():
            p = 'l' if land else ''
            mu = float(getattr(co, p + 'mu')[c])
            e = {'t': 'stats', 'vals': s, 'mu': 0, 'var': 0, 'mn': 0, 'alpha': 0, 'cmu': 0, 'smu': 0, 'C': 0, 'S': 0}
            if angular:
                e.update(cmu=int(round(1000 * math.cos(mu))), smu=int(round(1000 * math.sin(mu))),
                         C=sum(int(round(1000 * math.cos(math.radians(v)))) for v in s),
                         S=sum(int(round(1000 * math.sin(math.radians(v)))) for v in s))
            else:
                e.update(mu=int(round(100 * mu)), var=int(round(100 * float(getattr(co, p + 'sig')[c]) ** 2)),
                         mn=int(round(float(getattr(co, p + 'min')[c]))),
                         alpha=int(round(1000 * float(getattr(co, p + 'alpha')[c]))) if any(s) else 0)
            ev.append(e)
        # stored in a file, by position, and read again
        f = os.path.join(d, 'stats.nc')
        gen.save(f, 'speed')
        nc = tc.read_nc(f, ['lon', 'lat', 'mu', 'lmu', 'min', 'lmin', 'sig', 'alpha', 'lsig', 'lalpha', 'phi', 'lphi'])
        nx = (g['x1'] - g['x0']) // g['sx']
        back = GenerateStats(par, lonlat, gl, gs, inc, minSample=mn, angular=angular, missingValue=missing, calculateLater=True)
        back.load(f)
        for c in cells:
            i = int(np.argmin(abs(nc['lat'] - (g['y1'] - (c // nx) * g['sy']) / 1000.)))
            j = int(np.argmin(abs(nc['lon'] - (g['x0'] + (c % nx) * g['sx']) / 1000.)))
            want, got = [], []
            for k in ('mu', 'lmu', 'min', 'lmin', 'sig', 'alpha', 'lsig', 'lalpha', 'phi', 'lphi'):
                x = float(getattr(co, k)[c])
                if not math.isfinite(x):
                    continue
                want += [int(round(x * 100))] * 2
                for y in (float(nc[k][i, j]), float(getattr(back.coeffs, k)[c])):
                    y = int(round(y * 100)) if math.isfinite(y) else -999999
                    got.append(want[-1] if abs(y - want[-1]) <= 1 else y)
            ev.append({'t': 'file', 'got': got, 'want': want})
    return cfg, ev


def distributions(d, seed):
    from StatInterface.GenerateDistributions import GenerateDistributions
    rng = random.Random(seed)
    g = domain(rng)
    gl, gs = dicts(g)
    ix, iy = rng.choice([(g['sx'], g['sy']), (g['sx'] // 2, g['sy'] // 2), (1000, 500), (250, 1000)])
    inc = {'x': ix / 1000., 'y': iy / 1000.}
    missing = sys.maxsize
    obs, lonlat, par = observations(rng, g, False, missing)
    mn = rng.choice([1, 2, 3, 5, 10])
    cfg = dict(g, ix=ix, iy=iy, min=mn, edge='north', obs=obs, angular=False)
    ini = tc.write_ini(os.path.join(d, 'd.ini'), {'Output': {'Path': d}})
    ncell = ((g['x1'] - g['x0']) // g['sx']) * ((g['y1'] - g['y0']) // g['sy'])
    cells = sorted(rng.sample(range(ncell), min(ncell, 8)))
    gd = GenerateDistributions(ini, gl, gs, inc, rng.choice(['gau', 'epa', 'biw', 'tri']), minSamplesCell=mn, missingValue=missing)
    gd.lonLat, gd.pList = lonlat, par
    ev, found = [], {}
    for c in cells:
        try:
            gd.extractParameter(c)
            found[c] = [int(round(v)) for v in gd.parameter]
            ev.append({'t': 'sample', 'cell': c, 'land': 2, 'ok': True, 'vals': found[c]})
        except StopIteration:
            ev.append({'t': 'sample', 'cell': c, 'land': 2, 'ok': False, 'vals': []})
    step = rng.choice([1, 5])
    if mn >= 3 and len(found) == len(cells):
        os.makedirs(os.path.join(d, 'process'))
        try:
            r = gd.allDistributions(lonlat, par, kdeStep=step / 10.)
        except (StopIteration, ValueError, ZeroDivisionError, RuntimeError):   # no density for so few values
            r = None
        if r is not None:
            cs = []
            for x in r[:, 0]:
                if not cs or cs[-1] != int(x):
                    cs.append(int(x))
            ev.append({'t': 'cdf', 'cells': cs})
            for c in found:
                x = r[r[:, 0] == c][:, 1]
                ev.append({'t': 'range', 'vals': found[c], 'lo': int(round(x.min() * 10)), 'hi': int(round(x.max() * 10)), 'step': step})
    return cfg, ev


def run():
    c = vf.Check('P15')
    c.source(exts=('Utilities._maputils',))
    tc.quiet()
    fakempi.no_mpi()
    c.model_check('CellStatsMC', min_states=1000)
    import StatInterface.generateStats
    import StatInterface.GenerateDistributions
    import Utilities.stats
    A, B, D = (80, 110, 60) if c.quick else (1200, 1500, 1000)
    jobs = [(i, c.rng.getrandbits(32)) for i in range(A + B + D)]

    def play(job):
        i, seed = job
        if i < A:
            r = c.call(numbering, seed)
        else:
            d = c.dir('case')
            r = c.call(statistics if i < A + B else distributions, d, seed, timeout=200)
            shutil.rmtree(d)
        if r[0] != 'ok':
            return {'cfg': {'obs': []}, 'ev': [{'t': 'ended ' + r[0], 'what': str(r[1])[-1500:], 'seed': seed}]}
        return {'cfg': r[1][0], 'ev': r[1][1]}
    traces = c.pmap(play, jobs)
    stats = {}
    for t in traces:
        for e in t['ev']:
            stats[e['t']] = stats.get(e['t'], 0) + 1
            if e['t'] == 'sample':
                stats['insufficient'] = stats.get('insufficient', 0) + (not e['ok'])
    n = len(traces)
    ctrl = []
    for t in traces:
        for kind, field in (('num', 'cell'), ('corner', 'x'), ('sample', 'vals'), ('stats', 'mu')):
            ks = [i for i, e in enumerate(t['ev']) if e['t'] == kind and (kind != 'corner' or e['ok']) and
                  (kind != 'num' or e['cell'] >= 0) and
                  (kind != 'sample' or e['ok']) and (kind != 'stats' or not t['cfg']['angular'])]
            if ks and sum(x['kind'] == kind for x in ctrl) < 15:
                i = c.rng.choice(ks)
                ev = list(t['ev'])
                e = dict(ev[i])
                e[field] = e[field][1:] + [99] if field == 'vals' else e[field] + 4
                ev[i] = e
                ctrl.append({'cfg': t['cfg'], 'ev': ev, 'kind': kind})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('CellStats', allt, expect_reject=idx)
    # observations on the side between two cells: the statistics take the cell to the north of it
    again = [i for i in range(n) if res[i] is not None]
    if again:
        alt = [dict(traces[i], cfg=dict(traces[i]['cfg'], edge='south')) for i in again]
        for i, r in zip(again, c.trace_check('CellStats', alt)):
            if r is None:
                c.violation('statistics of a cell use the observations on its southern side', traces[i]['ev'][:1],
                            key='observations-on-southern-side')
                res[i] = None
            elif r[0] > res[i][0]:
                res[i] = r
    c.judge('CellStats', allt, res, idx)
    c.sample(traces[0]['ev'][:4])
    c.finish(domains=n, observed=stats)


vf.main(run)
