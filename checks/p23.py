"""P23: crossings of the coast and of longitudes."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import sched
import tc
import evalenv
import math
import random
import shutil
import traceback
import numpy as np

X0, Y0, U = 110., -30., .25         # lattice: lon = X0 + U * x, lat = Y0 + U * y
MAXX, MAXY = 120, 80


def turn(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])


def on(p, a, b):
    return turn(a, b, p) == 0 and (p[0] - a[0]) * (p[0] - b[0]) <= 0 and (p[1] - a[1]) * (p[1] - b[1]) <= 0


def cross(p, q, a, b):
    return turn(a, b, p) * turn(a, b, q) < 0 and turn(p, q, a) * turn(p, q, b) < 0


def edges(poly):
    return [(poly[i], poly[(i + 1) % len(poly)]) for i in range(len(poly))]


def simple(poly):
    n = len(poly)
    e = edges(poly)
    for i in range(n):
        for j in range(n):
            if j != i and j != (i + 1) % n and on(poly[j], *e[i]):
                return False
            if j > i and cross(e[i][0], e[i][1], e[j][0], e[j][1]):
                return False
    return len(set(poly)) == n


def coast(rng, box):
    """A simple polygon with integer vertices, either way around."""
    x0, x1, y0, y1 = box
    while True:
        n = rng.randint(3, 10)
        if rng.random() < .5:
            cx, cy = (x0 + x1) / 2., (y0 + y1) / 2.
            th = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
            poly = [(int(round(cx + rng.uniform(.2, 1.) * (x1 - x0) / 2 * math.cos(t))),
                     int(round(cy + rng.uniform(.2, 1.) * (y1 - y0) / 2 * math.sin(t)))) for t in th]
        else:
            poly = [(rng.randint(x0, x1), rng.randint(y0, y1)) for _ in range(n)]
            for _ in range(60):         # untangle
                bad = [(i, j) for i in range(n) for j in range(i + 1, n)
                       if cross(poly[i], poly[(i + 1) % n], poly[j], poly[(j + 1) % n])]
                if not bad:
                    break
                i, j = rng.choice(bad)
                poly[i + 1:j + 1] = poly[i + 1:j + 1][::-1]
        if simple(poly):
            if rng.random() < .5:
                poly.reverse()
            k = rng.randrange(n)
            return poly[k:] + poly[:k]


def general(poly, tr):
    e = edges(poly)
    return not any(on(p, a, b) for p in tr for a, b in e) and not any(
        tr[k] != tr[k + 1] and on(v, tr[k], tr[k + 1]) for k in range(len(tr) - 1) for v in poly)


def walk(rng, box, n, dx, dy, fine=None):
    x0, x1, y0, y1 = box
    p = (rng.randint(x0, x1), rng.randint(y0, y1))
    out = [p]
    while len(out) < n:
        q = (min(x1, max(x0, p[0] + rng.randint(-dx, dx))), min(y1, max(y0, p[1] + rng.randint(-dy, dy))))
        if fine and rng.random() < .3:
            q = (rng.choice(fine), q[1])
            if abs(q[0] - p[0]) > dx:
                continue
        if rng.random() < .05:
            q = p
        out.append(q)
        p = q
    return out


def coast_track(rng, poly, box):
    while True:
        t = walk(rng, box, rng.choice([1, 2, 3, 5, 8, 14]), rng.choice([3, 8, 30]), rng.choice([3, 8, 19]))
        if general(poly, t):
            return t


def lon_track(rng, lons, lats):
    while True:
        t = walk(rng, (-10, MAXX + 10, -10, MAXY + 10), rng.choice([2, 3, 6, 12, 20]), rng.choice([8, 20, 39]), rng.choice([3, 10, 19]), lons)
        ok = True
        for p, q in zip(t, t[1:]):
            for g in lons:
                if (p[0] >= g) != (q[0] >= g):
                    d = q[0] - p[0]
                    y = p[1] * d + (g - p[0]) * (q[1] - p[1])
                    if any(y == b * d for b in lats):
                        ok = False
        if ok:
            return t


def degrees(t):
    return [(X0 + U * x, Y0 + U * y, 980.) for x, y in t]


def micro(x, k=1.):
    x = float(x) * k
    return int(round(max(-9., min(9., x)) * 1e6)) if x == x else -9000000


def plan(rng, par):
    lons = list(range(0, MAXX + 1, 40))
    lats = list(range(0, MAXY + 1, 8))
    k = rng.random()
    box = (10, 110, 8, 72) if k < .5 else (30, 70, 20, 50)
    poly = coast(rng, box)
    wide = (box[0] - 12, box[1] + 12, box[2] - 12, box[3] + 12)
    nf = rng.randint(1, 6 if par else 3)

    def some(hist=False):
        n = rng.choice([0, 1, 2, 4]) if not hist else rng.choice([1, 2, 4])
        return [coast_track(rng, poly, wide) if rng.random() < .6 else lon_track(rng, lons, lats) for _ in range(n)]

    def fits(ts):
        ok = []
        for t in ts:
            g = general(poly, t)
            b = True
            for p, q in zip(t, t[1:]):
                for gl in lons:
                    if (p[0] >= gl) != (q[0] >= gl):
                        d = q[0] - p[0]
                        y = p[1] * d + (gl - p[0]) * (q[1] - p[1])
                        b = b and not any(y == z * d for z in lats)
            if g and b:
                ok.append(t)
        return ok
    files = [fits(some()) for _ in range(nf)]
    hist = []
    while not hist:
        hist = fits(some(True))
        hist = [t for t in hist if len(t) > 1 and max(abs(p[0] - q[0]) for p, q in zip(t, t[1:])) <= 39 and
                max(abs(p[1] - q[1]) for p, q in zip(t, t[1:])) <= 19]
    return dict(poly=poly, lons=lons, lats=lats, files=files, hist=hist)


def build(d, k, rng):
    hour = rng.choice([1, 2, 6])
    return evalenv.build(d, (X0, Y0, X0 + U * MAXX, Y0 + U * MAXY), (5., 5.), [degrees(t) for t in k['hist']],
                         [1980 + i for i in range(len(k['hist']))], [[degrees(t) for t in f] for f in k['files']],
                         rng.choice([1, 5, 10]), gates=[(X0 + U * x, Y0 + U * y) for x, y in k['poly']], hour=hour,
                         step=rng.choice([1., .5, hour]), sims=rng.sample(range(300), len(k['files'])))


def evaluate(ini, which):
    """Run one of the analyses; the rates it ends with."""
    import Evaluate
    if which == 'coast':
        o = Evaluate.LandfallRates(ini)
        o.run()
        if hasattr(o, 'synMeanLandfall'):
            return [[float(x) for x in v] for v in (o.historicLandfall, o.historicOffshore, o.synMeanLandfall, o.synMeanOffshore,
                                                       o.synLowerLF, o.synUpperLF, o.synLowerOF, o.synUpperOF)]
    else:
        o = Evaluate.LongitudeCrossing(ini)
        o.run()


def saved(out):
    p = os.path.join(out, 'process', 'lonCrossings.nc')
    if not os.path.exists(p):
        return None
    v = tc.read_nc(p, ['hist', 'hist_ew', 'hist_we', 'syn_mean', 'syn_mean_ew', 'syn_mean_we',
                       'syn_lower_ew', 'syn_lower_we', 'syn_upper_ew', 'syn_upper_we'])
    return {n: [[micro(x, 2.) for x in a[:, g]] for g in range(a.shape[1])] for n, a in v.items()}


def events(k, which, got, out, how):
    if how:
        return [{'t': 'ended', 'how': how}]
    js = lambda f: [[list(p) for p in t] for t in f]
    if which == 'coast':
        if got is None:
            return [{'t': 'stopped'}]
        m = [[micro(x) for x in v] for v in got]
        return [{'t': 'coast', 'tracks': js(k['hist']), 'on': m[0], 'off': m[1]},
                {'t': 'coastfiles', 'files': [js(f) for f in k['files']], 'on': m[2], 'off': m[3]},
                {'t': 'coastbounds', 'files': [js(f) for f in k['files']], 'on': m[4:6], 'off': m[6:8]}]
    v = saved(out)
    if v is None or len(v) != 10:
        return [{'t': 'stopped'}]
    return [{'t': 'lon', 'tracks': js(k['hist']), 'all': v['hist'], 'ew': v['hist_ew'], 'we': v['hist_we']},
            {'t': 'lonfiles', 'files': [js(f) for f in k['files']], 'ew': v['syn_mean_ew'], 'we': v['syn_mean_we']},
            {'t': 'lonbounds', 'files': [js(f) for f in k['files']], 'ew': list(zip(v['syn_lower_ew'], v['syn_upper_ew'])),
             'we': list(zip(v['syn_lower_we'], v['syn_upper_we']))}]


def alone(d, seed):
    """One process; each analysis in a process of its own (one configuration per process)."""
    rng = random.Random(seed)
    k = plan(rng, False)
    ini, out = build(d, k, rng)
    try:
        evalenv.no_drawing()
        which = rng.choice(['coast', 'coast', 'lon'])
        fakempi.no_mpi()
        got, how = None, ''
        try:
            got = evaluate(ini, which)
        except Exception as x:      # noqa
            how = traceback.format_exc()[-900:]
        ev = events(k, which, got, out, how)
        if which == 'coast':
            ev = geometry(k, rng) + ev
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'cfg': {'poly': [list(p) for p in k['poly']], 'lons': k['lons'], 'lats': k['lats']}, 'ev': ev,
            'about': {'seed': seed, 'analysis': which, 'processes': 1}}


def geometry(k, rng):
    import Utilities.Intersections as Int
    poly = k['poly']
    V = Int.convert2vertex([p[0] for p in poly + poly[:1]], [p[1] for p in poly + poly[:1]])
    ev = []
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    for _ in range(12):
        p = (rng.randint(min(xs) - 2, max(xs) + 2), rng.randint(min(ys) - 2, max(ys) + 2))
        if rng.random() < .3:
            p = (p[0], rng.choice(ys))          # level with a vertex
        if general(poly, [p]):
            ev.append({'t': 'point', 'p': list(p), 'land': bool(Int.inLand(Int.Point(*p), V))})
        q = (rng.randint(min(xs) - 2, max(xs) + 2), rng.randint(min(ys) - 2, max(ys) + 2))
        if p != q and general(poly, [p, q]):
            r = Int.Crossings().LinePolygon(Int.Point(*p), Int.Point(*q), [V])
            ev.append({'t': 'line', 'p': list(p), 'q': list(q), 'hit': r.status == 'Intersection'})
    return ev


def together(d, seed):
    """Several processes."""
    rng = random.Random(seed)
    k = plan(rng, True)
    ini, out = build(d, k, rng)
    try:
        evalenv.no_drawing()
        which = rng.choice(['coast', 'lon'])
        n = rng.choice([2, 3, 3, 4, 5])
        r = fakempi.run(n, lambda rank, size: evaluate(ini, which), fakempi.random_picker(seed), sync=rng.random() < .5,
                        timeout=120, listing=seed, rngseed=seed)
        how = r.problem() or ''
        got = None if how else r.outcome[0][1]
        ev = events(k, which, got, out, how)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'cfg': {'poly': [list(p) for p in k['poly']], 'lons': k['lons'], 'lats': k['lats']}, 'ev': ev, 'steps': r.steps,
            'about': {'seed': seed, 'analysis': which, 'processes': n, 'files': len(k['files'])}}


def one(c, item):
    kind, d, s = item
    st, v = c.call(alone if kind == 'alone' else together, d, s, timeout=300)
    if st == 'ok':
        return v
    return {'cfg': {'poly': [], 'lons': [], 'lats': []}, 'ev': [{'t': 'stopped', 'how': str(v)[-900:]}],
            'about': {'seed': s, 'analysis': kind, 'processes': 1}}


def damage(t, rng):
    e = rng.choice(t['ev'])
    if e['t'] == 'point':
        e['land'] = not e['land']
    elif e['t'] == 'line':
        e['hit'] = not e['hit']
    elif e['t'] in ('coast', 'coastfiles'):
        v = e[rng.choice(['on', 'off'])]
        v[rng.randrange(len(v))] += rng.choice([-1, 1]) * 30000
    elif e['t'] == 'coastbounds':
        v = e[rng.choice(['on', 'off'])][rng.randrange(2)]
        v[rng.randrange(len(v))] += 30000
    elif e['t'] == 'lonbounds':
        v = rng.choice(e[rng.choice(['ew', 'we'])])[rng.randrange(2)]
        v[rng.randrange(len(v))] += 30000
    elif e['t'] in ('lon', 'lonfiles'):
        v = rng.choice(e[rng.choice(['ew', 'we'])])
        v[rng.randrange(len(v))] += 30000
    return t


def run():
    c = vf.Check('P23')
    c.source(exts=('Utilities._akima', 'Utilities._maputils', 'PressureInterface._pressureProfile', 'wind._windmodels'))
    tc.quiet()
    c.model_check('CoastMC', min_states=4000)
    c.refute('CoastMC', 'CoastMCUpward', 'Parity')
    import Evaluate     # noqa
    import copy
    work = [('alone', c.dir('a%d' % i), c.rng.randrange(2 ** 31)) for i in range(60 if c.quick else 500)]
    work += [('together', c.dir('t%d' % i), c.rng.randrange(2 ** 31)) for i in range(42 if c.quick else 300)]
    traces = list(c.pmap(lambda q: one(c, q), work))
    stats = {'points': 0, 'lines': 0, 'evaluations': 0, 'in_parallel': 0, 'message_steps': 0, 'files': 0, 'tracks': 0, 'nonzero_rates': 0}
    for t in traces:
        stats['in_parallel'] += t['about']['processes'] > 1
        stats['message_steps'] += t.pop('steps', 0)
        for e in t['ev']:
            stats['points'] += e['t'] == 'point'
            stats['lines'] += e['t'] == 'line'
            stats['evaluations'] += e['t'] in ('coast', 'lon')
            stats['files'] += len(e['files']) if e['t'] in ('coastfiles', 'lonfiles') else 0
            stats['tracks'] += len(e.get('tracks', [])) + sum(len(f) for f in e.get('files', []) if e['t'] in ('coastfiles', 'lonfiles'))
            stats['nonzero_rates'] += sum(1 for n in ('on', 'off') for x in e.get(n, []) if x) + \
                sum(1 for n in ('ew', 'we') for v in e.get(n, []) for x in v if x) if e['t'] in ('coastfiles', 'lonfiles') else 0
    good = [t for t in traces if all(e['t'] != 'stopped' and e['t'] != 'ended' for e in t['ev'])]
    bad = [damage(copy.deepcopy(t), c.rng) for t in good[:30]]
    allt = traces + bad
    rej = range(len(traces), len(allt))
    res = c.trace_check('Coast', allt, expect_reject=rej)
    c.judge('Coast', allt, res, rej)
    for t in traces[:3]:
        c.sample(t['about'])
    c.finish(**stats)


if __name__ == '__main__':
    vf.main(run)
