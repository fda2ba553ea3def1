"""P24: statistics of the evaluation, for any number of processes."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import evalenv
import random
import shutil
import traceback
import numpy as np

U = 4                               # positions in quarters of a degree


def plan(rng, which):
    cell = rng.choice([1, 2, 5]) if which != 'genesis' else 2
    px, py = rng.randint(1, 5), rng.randint(1, 4)
    if which == 'genesis':
        px, py = rng.randint(3, 5), rng.randint(3, 4)
    while cell * max(px, py) < 4:
        px += 1
        py += 1
    w, h = px * cell * U, py * cell * U
    x0, y0 = rng.choice([100., 115.5, 150.25]), rng.choice([-30., -22.75, 8.])
    nf = rng.choice([1, 2, 3, 4, 6])

    def track(hist):
        x, y = rng.randint(-8, w + 8), rng.randint(-8, h + 8)
        if rng.random() < .7:
            x, y = rng.randint(0, w - 1), rng.randint(0, h - 1)
        t = []
        for i in range(rng.choice([1, 2, 4, 9, 16]) if not hist else rng.choice([2, 4, 9])):
            # on a border between cells; jumps would split a historical storm
            if rng.random() < .25 and (not hist or x % (cell * U) < 10):
                x -= x % (cell * U)
            if rng.random() < .25 and (not hist or y % (cell * U) < 8):
                y -= y % (cell * U)
            if x == w or y == h:            # the outer border belongs to no cell or to the last
                x, y = min(x, w - 1), min(y, h - 1)
            p = rng.randint(87000, 101000)
            if hist and rng.random() < .2:
                p = 0
            t.append((x, y, p))
            x = max(-12, min(w + 12, x + rng.randint(-6, 6)))
            y = max(-12, min(h + 12, y + rng.randint(-6, 6)))
        return t
    if which == 'genesis':
        # origins that differ in both coordinates: the kernel estimate needs some spread
        def origins(n, x0, x1, y0, y1):
            return [(x, y, 98000) for x, y in zip(rng.sample(range(x0, x1), n), rng.sample(range(y0, y1), n))]
        corner = [rng.randrange(2), rng.randrange(2)] if rng.random() < .6 else None

        def group(n, hist):
            if corner is None:
                return [[o] + track(hist) for o in origins(n, 1, w, 1, h)]
            # all storms go from one corner to the opposite one
            box = lambda sx, sy: (sx * (w // 2 + U), sx * (w // 2 + U) + w // 2 - U, sy * (h // 2 + U), sy * (h // 2 + U) + h // 2 - U)
            # (through the middle: a jump would split a historical storm)
            return [[o, (w // 2, h // 2, 98000)] + origins(rng.choice([1, 3, 6]), *box(1 - corner[0], 1 - corner[1]))
                    for o in origins(min(n, w // 2 - U, h // 2 - U), *box(*corner))]
        files = [group(rng.choice([5, 8]), False) for _ in range(min(nf, 4))]
        hist = group(8, True)
    else:
        files = [[track(False) for _ in range(rng.choice([0, 1, 2, 4]))] for _ in range(nf)]
        hist = [track(True) for _ in range(rng.choice([1, 2, 4]))]
    if which != 'genesis':
        corner = None
    y = rng.randint(1960, 2010)
    years = sorted(y + rng.choice([0, 0, 1, 3, 9]) for _ in hist)
    # some storms go on into the next year (a record every three hours, from 18 h on)
    late = [i for i in range(len(hist)) if rng.random() < .2]
    last = max(v + (i in late and len(hist[i]) > 2) for i, v in enumerate(years))
    return dict(late=late, last=last, corner=corner, cell=cell, px=px, py=py, w=w, h=h, x0=x0, y0=y0, files=files, hist=hist, years=years,
                syn=rng.choice([1, 2, 5, 10]), sims=sorted(rng.sample(range(400), len(files))), missing=rng.choice(['0', '-999', '9999']))


def build(d, k, files=None):
    deg = lambda t: [(k['x0'] + p[0] / float(U), k['y0'] + p[1] / float(U), p[2] / 100. if p[2] else None) for p in t]
    fs = k['files'] if files is None else files
    os.makedirs(d, exist_ok=True)
    return evalenv.build(d, (k['x0'], k['y0'], k['x0'] + k['w'] / float(U), k['y0'] + k['h'] / float(U)),
                         (float(k['cell']), float(k['cell'])), [deg(t) for t in k['hist']], k['years'],
                         [[deg(t) for t in f] for f in fs], k['syn'], sims=k['sims'], missing=k['missing'], hour=3, late=k['late'])


CLASS = {'density': 'TrackDensity', 'pressure': 'PressureDistribution', 'genesis': 'GenesisDensity'}


def evaluate(ini, which):
    import Evaluate
    o = getattr(Evaluate, CLASS[which])(ini)
    o.run()
    # what is only shown in figures
    shown = {}
    for n in ('synMinCPDist', 'synMinCPLower', 'synMinCPUpper', 'synMed', 'synMax', 'histMed', 'histMax'):
        v = getattr(o, n, None)
        if v is not None:
            shown[n] = np.ma.filled(np.ma.asarray(v, float), np.nan)
    return shown


def flat(a, k, top=2000000):
    """(lat, lon) array -> column by column, in 1/k."""
    a = np.asarray(a, float).T.ravel()
    return [int(round(max(-top, min(top, x * k)))) if x == x else -top for x in a]


def press(a):
    a = np.asarray(a, float).T.ravel()
    return [int(round(x * 100)) if 700 < x < 1200 else (0 if x != x or x <= 0 or x > 1e5 else 1) for x in a]


def read(out, name, vs):
    p = os.path.join(out, 'process', name)
    if not os.path.exists(p):
        return None
    v = tc.read_nc(p, vs)
    return v if len(v) == len(vs) else None


def lines(path):
    return [int(round(float(x) * 100)) for x in open(path).read().split()] if os.path.exists(path) else [-1]


def events(k, which, got, out):
    js = lambda f: [[list(p) for p in t] for t in f]
    files, hist = [js(f) for f in k['files']], js(k['hist'])
    if which == 'density':
        v = read(out, 'density.nc', ['hist_density', 'syn_density', 'syn_density_upper', 'syn_density_lower'])
        if v is None:
            return [{'t': 'stopped'}]
        return [{'t': 'hist', 'tracks': hist, 'first': k['years'][0], 'last': k['last'], 'dens': flat(v['hist_density'], 1e4)},
                {'t': 'density', 'files': files, 'years': k['syn'], 'mean': flat(v['syn_density'], 1e4),
                 'low': flat(v['syn_density_lower'], 1e4), 'high': flat(v['syn_density_upper'], 1e4)}]
    v = read(out, 'pressureDistribution.nc', ['hist_mean', 'syn_mean', 'hist_min', 'syn_min'])
    if v is None:
        return [{'t': 'stopped'}]
    ev = [{'t': 'histp', 'tracks': hist, 'mean': press(v['hist_mean']), 'min': press(v['hist_min'])},
          {'t': 'pressure', 'files': files, 'mean': press(v['syn_mean']), 'min': press(v['syn_min'])},
          {'t': 'minima', 'files': [hist], 'list': lines(os.path.join(out, 'process', 'histCP.csv'))},
          {'t': 'minima', 'files': files, 'list': lines(os.path.join(out, 'process', 'synCP.csv'))}]
    share = lambda a: [int(round(max(-9, min(9, x)) * 5e4)) if x == x else -90000 for x in a]
    if 'synMinCPDist' in got:
        e = {'t': 'dist', 'files': files, 'dist': share(got['synMinCPDist'])}
        for n, w in (('low', 'synMinCPLower'), ('high', 'synMinCPUpper')):
            e[n] = share(got[w]) if w in got else []
        ev.append(e)
    for n, f in (('hist', [hist]), ('syn', files)):
        if n + 'Med' in got and n + 'Max' in got:
            # (columns of the grid first)
            ev.append({'t': 'middle', 'files': f, 'med': press(got[n + 'Med'].T), 'max': press(got[n + 'Max'].T)})
    return ev


def genesis(out):
    v = read(out, 'genesis_density.nc', ['syn_density', 'syn_density_upper', 'syn_density_lower'])
    return None if v is None else [flat(v[n], 1e5) for n in ('syn_density', 'syn_density_lower', 'syn_density_upper')]


def corners(k, out):
    """How much of the density is in the corner of the origins and in the opposite one."""
    v = read(out, 'genesis_density.nc', ['hist_density', 'syn_density'])
    if k['corner'] is None or v is None:
        return []
    ev = []
    for a in v.values():
        ny, nx = a.shape
        half = lambda s, n: slice(0, n // 2) if s == 0 else slice(n - n // 2, n)
        q = [flat(a[half(sy, ny), half(sx, nx)].sum(), 1e4)[0] for sx, sy in
             (k['corner'], (1 - k['corner'][0], 1 - k['corner'][1]))]
        ev.append({'t': 'origins', 'own': q[0], 'far': q[1]})
    return ev


def scenario(d, seed, n, which):
    rng = random.Random(seed)
    k = plan(rng, which)
    os.rmdir(d)
    ini, out = build(d, k)
    evalenv.no_drawing()
    steps = 0
    try:
        if n == 1:
            how, got = '', {}
            def go(ini):
                fakempi.no_mpi()
                return evaluate(ini, which)
            st, v = vf.Check.call(None, go, ini, timeout=240)
            got, how = (v, '') if st == 'ok' else ({}, '%s %s' % (st, v))
        else:
            r = fakempi.run(n, lambda rank, size: evaluate(ini, which), fakempi.random_picker(seed), sync=rng.random() < .5,
                            timeout=240, listing=seed, rngseed=seed)
            steps = r.steps
            how = r.problem() or ''
            got = {} if how else r.outcome[0][1]
        if how:
            ev = [{'t': 'ended', 'how': how[-900:]}]
        elif which != 'genesis':
            ev = events(k, which, got, out)
        else:
            whole, parts = genesis(out), []
            for i, f in enumerate(k['files']):
                di = os.path.join(d, 'one%d' % i)
                ini1, out1 = build(di, k, [f])
                def go(ini1):
                    fakempi.no_mpi()
                    return evaluate(ini1, which)
                st, v = vf.Check.call(None, go, ini1, timeout=240)
                parts.append(genesis(out1) if st == 'ok' else None)
            if whole is None or any(p is None for p in parts):
                ev = [{'t': 'stopped'}]
            else:
                ev = corners(k, out) + [{'t': 'together', 'parts': [p[0] for p in parts], 'mean': whole[0], 'low': whole[1], 'high': whole[2]}]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c = k['cell'] * U
    return {'cfg': {'u': c, 'nx': k['px'], 'ny': k['py'], 's': c, 'px': k['px'], 'py': k['py'], 'w': k['w'], 'h': k['h']}, 'ev': ev,
            'steps': steps, 'about': {'seed': seed, 'analysis': which, 'processes': n, 'files': len(k['files'])}}


def one(c, item):
    d, s, n, which = item
    st, v = c.call(scenario, d, s, n, which, timeout=800)
    if st == 'ok':
        return v
    raise vf.CheckError('%s %s' % (st, v))


def damage(t, rng):
    e = rng.choice(t['ev'])
    n = {'hist': 'dens', 'density': 'mean', 'histp': 'mean', 'pressure': 'min', 'minima': 'list', 'dist': 'dist', 'middle': 'med', 'together': 'mean',
         'origins': 'own'}[e['t']]
    if n == 'own':
        e['own'], e['far'] = e['far'], e['own']
        return t
    if not e[n]:
        e[n].append(1)
    else:
        i = rng.randrange(len(e[n]))
        e[n][i] += 10001 if e['t'] != 'together' else 800
    return t


def run():
    c = vf.Check('P24')
    c.source(exts=('Utilities._akima', 'Utilities._maputils', 'PressureInterface._pressureProfile', 'wind._windmodels'))
    tc.quiet()
    c.model_check('EvalFarm', min_states=2000)
    c.refute('EvalFarm', 'EvalFarmArrival', 'Right')
    c.refute('EvalFarm', 'EvalFarmUnguarded', 'Right')
    c.refute('EvalFarm', 'EvalFarmAlone', 'NoStuck')
    c.model_check('EvalStatsMC', min_states=1000)
    import copy
    import Evaluate     # noqa
    work = []
    for which, q, th in (('density', 45, 400), ('pressure', 45, 400), ('genesis', 14, 80)):
        for i in range(q if c.quick else th):
            work.append((c.dir('%s%d' % (which, i)), c.rng.randrange(2 ** 31), c.rng.choice([1, 2, 3, 4, 6]), which))
    work.sort(key=lambda w: w[3] != 'genesis')
    traces = list(c.pmap(lambda q: one(c, q), work, timeout=700))
    stats = {'densities': 0, 'pressure_maps': 0, 'origins': 0, 'in_parallel': 0, 'more_processes_than_files': 0, 'message_steps': 0,
             'cells': 0, 'storm_minima': 0}
    for t in traces:
        a = t['about']
        stats[{'density': 'densities', 'pressure': 'pressure_maps', 'genesis': 'origins'}[a['analysis']]] += 1
        stats['in_parallel'] += a['processes'] > 1
        stats['more_processes_than_files'] += a['processes'] - 1 > a['files']
        stats['message_steps'] += t.pop('steps')
        for e in t['ev']:
            stats['cells'] += len(e.get('mean', [])) + len(e.get('dens', []))
            stats['storm_minima'] += len(e.get('list', []))
    good = [t for t in traces if all(e['t'] not in ('stopped', 'ended') for e in t['ev'])]
    bad = [damage(copy.deepcopy(t), c.rng) for t in good[:40]]
    allt = traces + bad
    rej = range(len(traces), len(allt))
    res = c.trace_check('EvalStats', allt, expect_reject=rej)
    c.judge('EvalStats', allt, res, rej)
    for t in traces[:3]:
        c.sample(t['about'])
    c.finish(**stats)


if __name__ == '__main__':
    vf.main(run)
