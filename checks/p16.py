"""P16: sampling from tabulated distributions, and the cumulative distributions themselves."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import random
import shutil
import numpy as np


class Uniform(object):
    """Stands in for numpy's global uniform numbers and hands out the given ones."""

    def __init__(self, values):
        self.values, self.calls, self.odd = list(values), 0, False

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in ('rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform')}
        for n in self.saved:
            setattr(np.random, n, self.draw if n != 'uniform' else self.uniform)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)

    def take(self, n):
        self.calls += n
        if len(self.values) < n:
            self.odd = True
            return [.5] * n
        r, self.values = self.values[:n], self.values[n:]
        return r

    def draw(self, size=None, *more):
        if size is None:
            return self.take(1)[0]
        if more:
            size = (size,) + more
        return np.array(self.take(int(np.prod(size)))).reshape(size)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.draw(size)


def weights(rng, n, total, exact):
    """Whole weights; when exact, they add up to a power of two, so that fractions are exact."""
    while True:
        w = [rng.choice([0, 0, 1, 1, 2, 3, 7]) for _ in range(n)]
        if not exact:
            if sum(w):
                return w
            continue
        left = total - sum(w)
        if left >= 0:
            w[rng.randrange(n)] += left
            return w


def numbers(rng, cums, total, den, exact, k):
    """Numerators q of uniform numbers q/den, near and (where exact) at the steps of the distribution."""
    out = []
    for _ in range(k):
        r = rng.random()
        if r < .6:
            q = rng.choice(cums) * den // total + rng.choice([-1, 0, 1, 2])
        else:
            q = rng.randint(1, den - 1)
        q = max(1, min(den - 1, q))
        if not exact and any(c * den == q * total for c in cums):
            q = q + 1 if q + 1 < den else q - 1
            if any(c * den == q * total for c in cums):
                continue
        out.append(q)
    return out or [1]


def cumsum(w):
    return [sum(w[:i + 1]) for i in range(len(w))]


def axis(rng, n):
    a = rng.choice([0., 110., -30., 999.5, 150.25])
    h = rng.choice([1., .5, .25, 2., .1, .3])
    return np.array([a + h * i for i in range(n)])


def place(xs, v):
    i = np.flatnonzero(np.asarray(xs, dtype=float) == float(v))
    if i.size == 0:
        i = np.flatnonzero(abs(np.asarray(xs, dtype=float) - float(v)) < 1e-5)
    return int(i[0]) + 1 if i.size else -1


def table(d, seed):
    import TrackGenerator.TrackGenerator as tg
    from StatInterface.SamplingParameters import SamplingParameters
    import Utilities.stats as stats
    rng = random.Random(seed)
    exact = rng.random() < .6
    n = rng.choice([2, 3, 5, 12, 40])
    total = 64 if n < 20 else 512
    w = weights(rng, n, total, exact)
    total = sum(w)
    xs = axis(rng, n) * (1 if rng.random() < .8 else -1)
    if exact:
        xs = np.arange(n) * rng.choice([1., .5, .25]) + rng.choice([0, 10, -3])
    dens = np.array(w, dtype=float) * rng.choice([1., .5, .25]) if exact else np.array(w) * rng.uniform(.01, 9.)
    cy = stats.cdf(xs, dens)
    ev = [{'t': 'cdf', 'p': [int(round(x * 1e6 / total)) for x in w], 'c': [int(round(x * 1e6)) for x in cy]}]
    tab = np.transpose(np.array([xs, cy]))
    den = 1024 if exact else 9973
    qs = numbers(rng, cumsum(w), total, den, exact, 12)
    cfg = {'den': den, 'w': [w], 'xs': [], 'ys': []}
    for q in qs:
        ev.append({'t': 'draw', 'q': q, 'i': place(xs, tg.ppf(q / den, tab))})

    def record(u, res, qs):
        for q, v in zip(qs, res):
            if u.calls == len(qs) and not u.odd:
                ev.append({'t': 'draw', 'q': q, 'i': place(xs, v)})
            else:
                ev.append({'t': 'support', 'i': 1, 'j': place(xs, v)})
    f = os.path.join(d, 'cdf')
    how = rng.randrange(4)
    if how == 0:
        s = SamplingParameters(tab)
    elif how == 1:
        s = SamplingParameters().setParameters(tab)
    else:
        if exact:
            np.savetxt(f, tab, fmt='%.12f', delimiter=',')
        else:
            np.savetxt(f, tab, fmt='%.17e', delimiter=',')
        s = SamplingParameters(f) if how == 2 else SamplingParameters().setParameters(f)
    for q in qs[:4]:
        with Uniform([q / den]) as u:
            v = s.generateOneSample()
        record(u, [v], [q])
    with Uniform([q / den for q in qs]) as u:
        v = s.generateSamples(len(qs))
    record(u, v, qs)
    with Uniform([q / den for q in qs]) as u:
        s.generateSamples(len(qs), os.path.join(d, 'out'))
    record(u, np.atleast_1d(np.loadtxt(os.path.join(d, 'out'), comments='%')), qs)
    for k in (0, -1):
        try:
            s.generateSamples(k)
            ev.append({'t': 'reject', 'raised': False})
        except ValueError:
            ev.append({'t': 'reject', 'raised': True})
    return cfg, ev


def write_grid(path, x, y, z):
    from netCDF4 import Dataset
    nc = Dataset(path, 'w')
    nc.createDimension('lat', len(y))
    nc.createDimension('lon', len(x))
    nc.createVariable('lat', 'f8', ('lat',))[:] = y
    nc.createVariable('lon', 'f8', ('lon',))[:] = x
    nc.createVariable('gpdf', 'f8', ('lat', 'lon'))[:] = z
    nc.close()


def origins(d, seed):
    from StatInterface.SamplingOrigin import SamplingOrigin
    import Utilities.stats as stats
    rng = random.Random(seed)
    exact = rng.random() < .6
    nx, ny = rng.choice([(2, 2), (2, 5), (5, 2), (4, 3), (7, 7), (3, 11)])
    # columns of powers of two, so that fractions are exact
    while True:
        w = [weights(rng, ny, 16, exact) if rng.random() < .8 else [0] * ny for _ in range(nx)]
        if not exact and sum(map(sum, w)):
            break
        k = sum(1 for c in w if sum(c))
        if k and k & (k - 1) == 0 and all(sum(c) in (0, 16) for c in w):
            break
    total = sum(map(sum, w))
    x, y = axis(rng, nx), axis(rng, ny)
    if exact:
        x, y = np.arange(nx) * .5 + 110, np.arange(ny) * .25 - 20
    if rng.random() < .5:
        y = y[::-1].copy()
    z = np.array(w, dtype=float).T * (rng.choice([1., .25]) if exact else rng.uniform(.001, 5))
    how = rng.randrange(4)
    if how == 0:
        s = SamplingOrigin(z.copy(), x.copy(), y.copy())
    elif how == 1:
        f = os.path.join(d, 'origin.nc')
        write_grid(f, x, y, z)
        s = SamplingOrigin(f)
    elif how == 2:
        s = SamplingOrigin()
        s.setKDEOrigins(x.copy(), y.copy(), z.copy())
    else:
        for n, v in (('x', x), ('y', y), ('z', z)):
            np.savetxt(os.path.join(d, n), v, fmt='%.17e', delimiter=',')
        s = SamplingOrigin()
        s.setKDEOrigins(*[os.path.join(d, n) for n in 'xyz'])
    den = 1024 if exact else 9973
    cx = cumsum([sum(c) for c in w])
    pairs = []
    for q in numbers(rng, cx, total, den, exact, 20):
        i = next(k for k in range(nx) if cx[k] * den >= q * total)
        r = numbers(rng, cumsum(w[i]), sum(w[i]), den, exact, 1)[0]
        pairs.append((q, r))
    cfg = {'den': den, 'w': w, 'xs': [], 'ys': []}
    ev = []

    def one(v, q, r):
        return {'t': 'origin', 'q': q, 'r': r, 'i': place(x, v[0]), 'j': place(y, v[1])}
    for q, r in pairs:
        ev.append(one(s.ppf(q / den, r / den), q, r))
    for q, r in pairs[:5]:
        # either of the two numbers may be drawn first
        with Uniform([q / den, r / den]) as u:
            v = s.generateOneSample()
        e = one(v, q, r)
        with Uniform([r / den, q / den]) as u2:
            e2 = one(s.generateOneSample(), q, r)
        if u.calls != 2 or u.odd or u2.odd:
            e = {'t': 'support', 'i': e['i'], 'j': e['j']}
        elif (e['i'], e['j']) != (e2['i'], e2['j']) and place_ok(w, den, q, r) == (e2['i'], e2['j']):
            e = e2
        ev.append(e)
    qs, rs = [q / den for q, _ in pairs], [r / den for _, r in pairs]
    for save in (False, True):
        if save:
            f = os.path.join(d, 'samples')
            with Uniform(qs + rs) as u:
                s.generateSamples(len(pairs), f)
            v = np.atleast_2d(np.loadtxt(f, comments='%', delimiter=','))
            xr, yr = np.round(x, 3), np.round(y, 3)
        else:
            with Uniform(qs + rs) as u:
                v = s.generateSamples(len(pairs))
            xr, yr = x, y
        for k, (q, r) in enumerate(pairs):
            e = {'t': 'origin', 'q': q, 'r': r, 'i': place(xr, v[k][0]), 'j': place(yr, v[k][1])}
            if u.calls != 2 * len(pairs) or u.odd:
                e = {'t': 'support', 'i': e['i'], 'j': e['j']}
            ev.append(e)
    for k in (0, -1):
        try:
            s.generateSamples(k)
            ev.append({'t': 'reject', 'raised': False})
        except ValueError:
            ev.append({'t': 'reject', 'raised': True})
    c2 = stats.cdf2d(x, y, np.array(w, dtype=float))
    ev.append({'t': 'cdf2', 'p': [[int(round(v * 1e6 / total)) for v in c] for c in w],
               'c': [[int(round(v * 1e6)) for v in c] for c in c2]})
    return cfg, ev


def place_ok(w, den, q, r):
    tot, acc = sum(map(sum, w)), 0
    for i, c in enumerate(w):
        acc += sum(c)
        if acc * den >= q * tot:
            a = 0
            for j, v in enumerate(c):
                a += v
                if a * den >= r * sum(c):
                    return (i + 1, j + 1)


def cdf_event(o):
    p = o[:, 1] / o[:, 1].sum()
    return {'t': 'cdf', 'p': [int(round(v * 1e6)) for v in p], 'c': [int(round(v * 1e6)) for v in o[:, 2]]}


def densities(d, seed):
    """Distributions estimated from data: tabulated values, densities and their cumulative sums."""
    from StatInterface.KDEParameters import KDEParameters
    rng = random.Random(seed)
    nrng = np.random.RandomState(seed)
    kern = rng.choice(['gau', 'epa', 'biw', 'tri'])
    k = KDEParameters(kern)
    kind = rng.choice(['plain', 'plain', 'angular', 'periodic', 'periodic', 'days'])
    n = rng.choice([8, 20, 60])
    ev = []
    close = rng.random() < .6
    cfg = {'den': 1, 'w': [[1]], 'xs': [], 'ys': []}
    if kind == 'plain':
        mid = rng.choice([0., 990., -4., 40.])
        data = nrng.normal(mid, 2., n)
        step = rng.choice([.1, .25, .5])
        lo, hi, period = data.min(), data.max(), 0
    else:
        period = 360 if kind == 'angular' else rng.choice([365, 365, 12]) if kind == 'periodic' else 365
        step = 1. if kind in ('angular', 'days') else rng.choice([.25, .5, 1.])
        mid = rng.uniform(.3, .7) * period if kind == 'angular' else rng.uniform(0, period)
        data = nrng.normal(mid, period / 60., n) % period if close else nrng.uniform(0, period, n)
        lo, hi = (0., 360.) if kind == 'angular' else (1., period + 1.)
    if kind == 'days':
        data = np.floor(data) + 1
        f = os.path.join(d, 'days')
        np.savetxt(f, data)
        bw = rng.choice([None, 14])
        if rng.random() < .5:
            out = os.path.join(d, 'cdfdays')
            k.generateGenesisDateCDF(f, None, bw, out)
            o = KDEParameters(kern).generateGenesisDateCDF(f, None, bw)
            t = np.loadtxt(out, comments='%', delimiter=',')
            ev.append({'t': 'same', 'a': [int(round(v * 1e5)) for v in t[:, 1]], 'b': [int(round(v * 1e5)) for v in o[:, 2]]})
        else:
            o = k.generateGenesisDateCDF(f, None, bw)
    else:
        arg = data
        kw = {'angular': kind == 'angular', 'periodic': period if kind == 'periodic' else False}
        if rng.random() < .3:
            arg = os.path.join(d, 'data')
            np.savetxt(arg, data, fmt='%.10f')
        elif rng.random() < .3:      # missing values in between
            arg = np.concatenate([data[:3], [sys.maxsize], data[3:], [sys.maxsize]]).astype(float)
        o = k.generateKDE(arg, step, **kw)
        if rng.random() < .4:
            f, g = os.path.join(d, 'kde'), os.path.join(d, 'cdf')
            KDEParameters(kern).generateKDE(arg, step, f, g, **kw)
            a, b = (np.loadtxt(p, comments='%', delimiter=',') for p in (f, g))
            ev.append({'t': 'same', 'a': [int(round(v * 1e4)) for v in np.concatenate([a.ravel(), b.ravel()])],
                       'b': [int(round(v * 1e4)) for v in np.concatenate([o[:, :2].ravel(), o[:, [0, 2]].ravel()])]})
    ev.append(cdf_event(o))
    ev.append({'t': 'grid', 'n': len(o), 'lo': int(round(o[0, 0] * 1000)), 'hi': int(round(o[-1, 0] * 1000)),
               'wlo': int(round(lo * 1000)), 'whi': int(round(hi * 1000)), 'step': int(round(step * 1000))})
    # A kernel that is symmetric does not turn the centre of data round a circle.  Where it is so wide that
    # little of the direction is left (or its opposite), or reaches beyond the year, nothing can be said.
    if period and kind != 'angular':
        turn = lambda v: np.exp(2j * np.pi * v / period)
        md, mo = turn(data).mean(), (o[:, 1] * turn(o[:, 0])).sum() / o[:, 1].sum()
        left = abs(mo) / abs(md)
        off = abs(np.angle(mo / md)) / 2 / np.pi
        if abs(md) > .05 and left > (.3 if kern != 'gau' else .6):
            ev.append({'t': 'centre', 'dist': int(round(365000 * off)), 'tol': 200})
        elif abs(md) > .5 and kern != 'gau' and left > .06:
            ev.append({'t': 'centre', 'dist': int(round(365000 * min(off, .5 - off))), 'tol': 1000})
    # the bandwidth chosen for periodic data is too wide for the place of the highest density to be telling
    if kind == 'plain' or (close and (kind == 'angular' or (kind == 'days' and bw))):
        m = o[int(np.argmax(o[:, 1])), 0]
        dist = abs(m - mid)
        tol = 4. if kind == 'plain' else period / 15.
        if period:
            dist = min(dist % period, period - dist % period)
        ev.append({'t': 'mode', 'dist': int(round(1000 * dist)), 'tol': int(round(1000 * tol))})
    return cfg, ev


def genesis(d, seed):
    """The density of genesis points, saved on its grid and read again for sampling."""
    from StatInterface.KDEOrigin import KDEOrigin
    from StatInterface.SamplingOrigin import SamplingOrigin
    rng = random.Random(seed)
    nrng = np.random.RandomState(seed)
    nx, ny = rng.choice([(5, 8), (8, 5), (6, 6), (4, 9)])
    step = rng.choice([1., .5])
    x0, y0 = rng.choice([110., 150.]), rng.choice([-25., -20., 5.])
    gl = {'xMin': x0, 'xMax': x0 + nx * step, 'yMin': y0, 'yMax': y0 + ny * step}
    cx, cy = rng.uniform(x0 + step, gl['xMax'] - step), rng.uniform(y0 + step, gl['yMax'] - step)
    n = 25
    ll = np.transpose([nrng.normal(cx, .6 * step, n), nrng.normal(cy, .6 * step, n), np.zeros(n)])
    far = np.transpose([nrng.uniform(gl['xMax'] + 1, gl['xMax'] + 30, 15), nrng.uniform(y0 - 30, y0 - 1, 15), np.zeros(15)])
    # genesis points beyond one side of the domain only, or beyond two
    side = [(gl['xMax'] + 3 * step, cy), (x0 - 3 * step, cy), (cx, gl['yMax'] + 3 * step), (cx, y0 - 3 * step)]
    far = np.concatenate([far] + [np.transpose([nrng.normal(a, .3 * step, 12), nrng.normal(b, .3 * step, 12), np.zeros(12)]) for a, b in side])
    within = lambda p: ((p[:, 0] >= x0) & (p[:, 0] <= gl['xMax']) & (p[:, 1] >= y0) & (p[:, 1] <= gl['yMax']))
    ll = ll[within(ll)]
    n = len(ll)
    far = far[~within(far)]
    ll = np.concatenate([ll, far])
    ll = np.round(ll, 8)
    os.makedirs(os.path.join(d, 'process'))
    f = os.path.join(d, 'process', 'init_lon_lat')
    with open(f, 'w') as fh:
        fh.write('% Longitude, Latitude, LSFlag\n')
        for r in ll:
            fh.write('%.8f, %.8f, %.0f\n' % tuple(r))
    ini = tc.write_ini(os.path.join(d, 'k.ini'), {'Output': {'Path': d}})
    k = KDEOrigin(ini, gl, step)
    x, y, z = k.generateKDE(save=True)
    z = np.asarray(z)
    cz = np.asarray(k.generateCdf()).reshape(len(y), len(x))
    k.generateCdf(save=True)
    nc = tc.read_nc(os.path.join(d, 'process', 'originPDF.nc'), ['lon', 'lat', 'gpdf'])
    nd = tc.read_nc(os.path.join(d, 'process', 'originCDF.nc'), ['lon', 'lat', 'gcdf'])
    ints = lambda a: [int(round(float(v) * 1e4)) for v in np.asarray(a).ravel()]
    ev = []
    ev.append({'t': 'same', 'a': ints(nc['gpdf']) + ints(nc['lon']) + ints(nc['lat']), 'b': ints(z.T) + ints(x) + ints(y)})
    ev.append({'t': 'same', 'a': ints(nd['gcdf']), 'b': ints(cz)})
    # the points beyond the domain count for nothing
    alone = KDEOrigin(ini, gl, step, lonLat=ll[:n].copy()).generateKDE()[2]
    ev.append({'t': 'within', 'a': ints(z), 'b': ints(alone)})
    i, j = np.unravel_index(np.argmax(z), z.shape)
    # centre of the points used, in each direction
    for v, m in ((x[i], np.median(ll[:n, 0])), (y[j], np.median(ll[:n, 1]))):
        ev.append({'t': 'mode', 'dist': int(round(1000 * abs(v - m))), 'tol': int(1000 * 2.6 * step)})
    # sampling from the file: weights in whole numbers
    w = [[int(round(v * 1e5 / z.sum())) for v in col] for col in z]
    s = SamplingOrigin(os.path.join(d, 'process', 'originPDF.nc'))
    den = 97
    tot = z.sum()
    px = np.cumsum(z.sum(axis=1)) / tot
    for _ in range(25):
        q, r = rng.randint(1, den - 1), rng.randint(1, den - 1)
        # leave out numbers too close to a step for the rounded weights to decide
        if np.min(abs(px - q / den)) < 4e-4:
            continue
        py = np.cumsum(z[int(np.searchsorted(px, q / den))])
        if py[-1] / tot < .01 or np.min(abs(py / py[-1] - r / den)) < 2e-2:
            continue
        v = s.ppf(q / den, r / den)
        ev.append({'t': 'origin', 'q': q, 'r': r, 'i': place(x, v[0]), 'j': place(y, v[1])})
    return {'den': den, 'w': w, 'xs': [], 'ys': []}, ev


def sizes(d, seed):
    """The distribution of radii that is used where there are no observed ones."""
    import Utilities.stats as stats
    rng = random.Random(seed)
    mean, sig = rng.uniform(15., 60.), rng.uniform(.15, .5)
    # wide enough for the mean to be that of the whole distribution
    top = float(int(mean * 12))
    o = np.transpose(np.array(stats.rMaxDist(mean, sig, maxrad=top)))
    ev = [cdf_event(o), {'t': 'grid', 'n': len(o), 'lo': int(round(o[0, 0] * 1000)), 'hi': int(round(o[-1, 0] * 1000)),
                         'wlo': 1000, 'whi': int(top * 1000), 'step': 1000}]
    m = (o[:, 0] * o[:, 1]).sum() / o[:, 1].sum()
    ev.append({'t': 'centre', 'dist': int(round(1000 * abs(m - mean))), 'tol': int(round(10 * mean))})
    return {'den': 1, 'w': [[1]], 'xs': [], 'ys': []}, ev


def run():
    c = vf.Check('P16')
    c.source(exts=('Utilities._maputils', 'Utilities._akima'))
    tc.quiet()
    fakempi.no_mpi()
    c.model_check('SamplingMC', min_states=500)
    import TrackGenerator.TrackGenerator
    import StatInterface.SamplingOrigin
    import StatInterface.SamplingParameters
    import StatInterface.KDEOrigin
    import StatInterface.KDEParameters
    kinds = [(table, 120), (origins, 120), (densities, 90), (genesis, 16), (sizes, 16)]
    jobs = []
    for f, n in kinds:
        jobs += [(f, c.rng.getrandbits(32)) for _ in range(n if c.quick else n * 12)]

    def play(job):
        d = c.dir('case')
        r = c.call(job[0], d, job[1], timeout=200)
        shutil.rmtree(d)
        if r[0] != 'ok':
            return {'cfg': {'w': []}, 'ev': [{'t': 'ended ' + r[0], 'what': str(r[1])[-1500:], 'seed': job[1], 'kind': job[0].__name__}]}
        return {'cfg': r[1][0], 'ev': r[1][1]}
    traces = c.pmap(play, jobs)
    stats = {}
    for t in traces:
        for e in t['ev']:
            stats[e['t']] = stats.get(e['t'], 0) + 1
    n = len(traces)
    ctrl = []
    for t in traces:
        for kind in ('draw', 'origin', 'cdf', 'cdf2', 'mode', 'centre', 'within'):
            ks = [i for i, e in enumerate(t['ev']) if e['t'] == kind]
            if ks and sum(x['kind'] == kind for x in ctrl) < 12:
                i = c.rng.choice(ks)
                ev = list(t['ev'])
                e = dict(ev[i])
                if kind in ('draw', 'origin'):
                    e['i'] += 1
                elif kind == 'cdf':
                    e['c'] = [0] + e['c'][:-1]
                elif kind == 'cdf2':
                    e['c'] = [[v // 2 for v in x] for x in e['c']]
                elif kind == 'within':
                    e['a'] = [v + 1 for v in e['a']]
                else:
                    e['dist'] += e['tol'] + 1
                ev[i] = e
                ctrl.append({'cfg': t['cfg'], 'ev': ev, 'kind': kind})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Sampling', allt, expect_reject=idx)
    c.judge('Sampling', allt, res, idx)
    c.sample(traces[0]['ev'][1:5])
    c.finish(tables=n, observed=stats)


vf.main(run)
