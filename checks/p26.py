"""P26: storms develop by the statistics of their cell and fade over land."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import trackenv
import math
import random
import shutil
import numpy as np

SPACE = 5


def write_stats(path, mean, sig, phi, low=None):
    """Statistics of one quantity for every cell, over sea and over land."""
    from netCDF4 import Dataset
    k = len(mean[0])
    nc = Dataset(path, 'w', format='NETCDF4')
    nc.createDimension('cell', k)
    for i, pre in enumerate(('', 'l')):
        for name, v in (('mu', mean[i]), ('sig', sig[i]), ('alpha', [.5] * k),
                        ('phi', [phi[i]] * k), ('min', low or [0.] * k)):
            y = nc.createVariable(pre + name, 'f8', ('cell',))
            y[:] = v
    nc.close()


def write_land(path, boxes, x0, x1, step):
    """Land in boxes; latitudes from the south, rows from the north."""
    lon = np.arange(x0, x1 + step / 2, step)
    lat = np.arange(-600, 601) * .1 if step == .1 else np.arange(-240, 241) * .25
    z = np.zeros((len(lat), len(lon)))
    for x0, x1, y0, y1 in boxes:
        z[((lat >= y0) & (lat <= y1))[:, None] & ((lon >= x0) & (lon <= x1))[None, :]] = 1.
    if path.endswith('nc'):
        trackenv.write_grid(path, lon, lat, z[::-1], 'landmask')
        return
    with open(path, 'w') as f:
        f.write('ncols %d\nnrows %d\nxllcorner %.3f\nyllcorner %.3f\ncellsize %.3f\nNODATA_value -9999\n' %
                (len(lon), len(lat), lon[0], lat[0], step))
        for row in z[::-1]:
            f.write(' '.join('%d' % q for q in row) + '\n')


def events(ds, cols, dt):
    ev = [{'t': 'storm', 'dt': int(round(dt * 3600))}]
    n = len(cols['x'])
    for i in range(n):
        if not all(math.isfinite(cols[q][i]) for q in cols):
            ev.append({'t': 'point', 'bad': True})
            return ev
        ev.append({'t': 'point', 'bad': False, 'x': int(round(cols['x'][i] * 1e6)),
                   'y': int(round(cols['y'][i] * 1e6)), 'age': int(round(cols['age'][i] * 3600)),
                   'v': int(round(cols['speed'][i] * 1000)), 'b': int(round(cols['bear'][i] * 1000)) % 360000,
                   'p': int(round(cols['p'][i] * 1000)), 'env': int(round(cols['env'][i] * 1000))})
    if n:
        x, y = trackenv.move(cols['x'][-1], cols['y'][-1], cols['bear'][-1], cols['speed'][-1] * dt)
        if x - cols['x'][-1] > 180.:
            x -= 360.
        if cols['x'][-1] - x > 180.:
            x += 360.
        ev.append({'t': 'end', 'x': int(round(x * 1e6)), 'y': int(round(y * 1e6))})
    return ev


def run():
    c = vf.Check('P26')
    c.source()
    tc.quiet()
    c.model_check('CourseMC', min_states=1000)
    for v in ('CountsOn', 'SeaMeans', 'FirstDeficit', 'OneRate'):
        c.refute('CourseMC', 'CourseMC' + v, 'Accepted')
    import TrackGenerator.TrackGenerator as T
    import TrackGenerator.trackLandfall as L
    N = 70 if c.quick else 500
    stats = {'storms': 0, 'points': 0, 'land_points': 0, 'second_landfalls': 0, 'pairs_of_time_steps': 0,
             'northern_hemisphere': 0, 'through_files': 0, 'ends_inside': 0, 'places': 0}

    def one(g):
        rng = random.Random('%d/%d' % (c.seed, g))
        st = dict.fromkeys(stats, 0)
        d = c.dir('case')
        x0 = rng.choice([-20, 90, 105, 140, 160, 170])
        y0 = rng.choice([-30, -25, 5, 10])
        w = rng.choice([20, 25, 35])
        dom = (x0, x0 + w, y0, y0 + 20)
        twin = g % 7 == 6
        sec = trackenv.make(d, rng, dom, k=rng.randint(0, 3), strong=True)
        nx, ny = w // SPACE, 20 // SPACE
        k = nx * ny
        kind = rng.choice(['both', 'both', 'sea', 'land', 'still'])
        fast = rng.choice([(8., 30.), (20., 50.)])
        up = rng.choice([(-1.5, .5), (-3., -1.), (-.5, .5)])

        def draw(lo, hi):
            return [round(rng.uniform(lo, hi), 3) for _ in range(k)]
        v, b = [draw(*fast), draw(*fast)], [draw(0., 359.), draw(0., 359.)]
        if g % 2:
            b = [[(q % 60. + rng.choice([60., 240.])) % 360. for q in z] for z in b]
        r = [draw(*up), draw(*up)]
        low, sp = [round(rng.uniform(920., 960.), 3) for _ in range(k)], draw(1., 8.)
        # without spread over sea, over land, over both, or without randomness
        zero = {'both': (True, True), 'sea': (True, False), 'land': (False, True), 'still': (True, True)}[kind]
        phi = [0., 0.] if kind == 'still' else [.8, .8]

        def sig(s):
            return [[0.] * k if zero[i] and kind != 'still' else [s] * k for i in (0, 1)]
        proc = os.path.join(d, 'output', 'process')
        write_stats(os.path.join(proc, 'speed_stats.nc'), v, sig(6.), phi)
        write_stats(os.path.join(proc, 'bearing_stats.nc'), [[math.radians(q) for q in z] for z in b], sig(.7), phi)
        write_stats(os.path.join(proc, 'pressure_rate_stats.nc'), r, sig(.6), phi)
        write_stats(os.path.join(proc, 'pressure_stats.nc'), [draw(960., 990.)] * 2, [sp, sp], phi, low)
        boxes = []
        if twin:
            boxes = [(0., 360., 0., 60.)]
        elif g % 2:
            # stripes: storms that come on and off land
            q = x0 + rng.uniform(1., 3.)
            while q < x0 + w:
                e = rng.uniform(1.5, 3.)
                boxes += [(s % 360, min(s % 360 + e, 360.), 0., 60.) for s in [round(q * 4) / 4.]]
                q += e + rng.uniform(1.5, 3.)
        else:
            for _ in range(rng.randint(1, 4)):
                a, e = (x0 + rng.randint(0, w - 4)) % 360, min(abs(y0), abs(y0 + 20)) + rng.randint(0, 16)
                boxes.append((a, min(a + rng.randint(2, 9), 360), e, e + rng.randint(2, 8)))
        if y0 < 0:
            boxes = [(q[0], q[1], -q[3], -q[2]) for q in boxes]
        step = .25 if x0 < 0 else .1
        write_land(os.path.join(d, 'land.nc'), boxes, *((0., 360., step) if x0 < 0 else (x0 - 1., x0 + w + 1., step)))
        dt = rng.choice([.5, 1, 1, 2, 3])
        maxn = rng.choice([int(30 / dt), int(80 / dt), int(120 / dt)])
        seed = rng.randint(1, 10 ** 6)
        sec['TrackGenerator'].update(NumSimulations=1, NumTimeSteps=maxn, TimeStep=dt, Frequency=6,
                                     SeasonSeed=seed + 1, TrackSeed=seed, YearsPerSimulation=1)
        ini = tc.write_ini(os.path.join(d, 'c.ini'), sec)
        lim = dict(xMin=dom[0], xMax=dom[1], yMin=dom[2], yMax=dom[3])
        file = not twin and g % 3 == 0
        want = 1 if twin else rng.randint(2, 6)
        kw = {}
        if twin:
            kw = {'initLon': x0 + w / 2., 'initLat': y0 + 10., 'initBearing': rng.uniform(0., 359.),
                  'initSpeed': rng.uniform(5., 25.), 'initPressure': rng.uniform(920., 950.),
                  'initEnvPressure': 1008., 'initDay': rng.randint(2, 340)}

        def generate(hours, m):
            fakempi.no_mpi()
            if file:
                T.run(ini)
                p = os.path.join(d, 'output', 'tracks', 'tracks.00000.nc')
                return trackenv.from_file(p) if os.path.exists(p) else []
            from Utilities.parallel import attemptParallel
            T.MPI = attemptParallel()
            tg = T.TrackGenerator(proc, lim, {'x': SPACE, 'y': SPACE}, {'x': 1.0, 'y': 0.5},
                                  T.SamplePressure(os.path.join(d, 'mslp.nc')), L.LandfallDecay(ini, hours),
                                  dt=hours, maxTimeSteps=m)
            tg.loadInitialConditionDistributions()
            tg.loadCellStatistics()
            T.PRNG = T.random.Random(seed=seed, stream=0)
            return [trackenv.from_track(t) for t in tg.generateTracks(want, 0, **kw)]
        about = {'domain': dom, 'dt': dt, 'max_points': maxn, 'spread': kind, 'land': boxes,
                 'prescribed': kw, 'seed': seed, 'file': file}
        ev, ok = [], True
        steps = [1, rng.choice([2, 3, 4])] if twin else [dt]
        if twin:
            maxn = 100
        first = []
        for s in steps:
            q = c.call(generate, s, maxn, timeout=45)
            if q[0] == 'timeout' and not file:
                ok = False          # no valid storm can start here
                break
            if q[0] != 'ok':
                ev.append({'t': 'fail', 'what': str(q[1])[:600]})
                break
            for tid, ds, cols in q[1]:
                st['storms'] += 1
                st['points'] += len(cols['x'])
                first.append(cols['env'][0])
                ev += events(ds, cols, s)
        if not ok:
            shutil.rmtree(d)
            return None, dict.fromkeys(stats, 0), None
        # the same random numbers only if both storms are the first ones drawn
        same = twin and len(first) == 2 and abs(first[0] - first[1]) < 1e-3
        st['pairs_of_time_steps'] += same
        st['northern_hemisphere'] += y0 > 0
        st['through_files'] += file

        def mil(q, f=1e6):
            return int(round(q * f))
        cfg = {'x0': mil(dom[0]), 'x1': mil(dom[1]), 'y0': mil(dom[2]), 'y1': mil(dom[3]), 'space': mil(SPACE),
               'cols': nx, 'maxn': maxn, 'twin': bool(same), 'dt1': 3600, 'edge': mil(step + .01), 'calm': 990000,
               'ks': zero[0], 'kl': zero[1],
               'boxes': [{'x0': mil(q[0]), 'x1': mil(q[1]), 'y0': mil(q[2]), 'y1': mil(q[3])} for q in boxes],
               'cells': [{'sv': mil(v[0][i], 1e3), 'sb': mil(b[0][i], 1e3), 'sr': mil(r[0][i], 1e3),
                          'lv': mil(v[1][i], 1e3), 'lb': mil(b[1][i], 1e3),
                          'low': mil(low[i] - 4. * sp[i], 1e3)} for i in range(k)]}

        def ground(e):
            m = step + .01
            return any(q[0] + m < e['x'] / 1e6 % 360 < q[1] - m and q[2] + m < e['y'] / 1e6 < q[3] - m
                       for q in boxes)
        # places on the mask itself
        spots = [(rng.uniform(dom[0], dom[1]), rng.uniform(dom[2], dom[3])) for _ in range(20)]

        def look():
            m = L.LandfallDecay(ini, 1)
            return [bool(m.onLand(*z)) for z in spots]
        q = c.call(look)
        if q[0] == 'ok':
            ev += [{'t': 'place', 'x': mil(s[0]), 'y': mil(s[1]), 'land': z} for s, z in zip(spots, q[1])]
            st['places'] += len(spots)
        else:
            ev.append({'t': 'fail', 'what': str(q[1])[:600]})
        was, seen = False, 0
        for e in ev:
            if e['t'] == 'storm':
                was, seen = False, 0
            elif e['t'] == 'point' and not e['bad']:
                now = ground(e)
                st['land_points'] += now
                if now and not was:
                    st['second_landfalls'] += seen > 0
                    seen += 1
                was = now
            elif e['t'] == 'end':
                st['ends_inside'] += (dom[0] < e['x'] / 1e6 < dom[1]) and (dom[2] < e['y'] / 1e6 < dom[3])
        shutil.rmtree(d)
        return {'cfg': cfg, 'ev': ev, 'about': about}, st, {'about': about, 'events': ev[:3]}
    traces = []
    for t, st, smp in c.pmap(one, range(N), timeout=700):
        for q in st:
            stats[q] += st[q]
        if t:
            traces.append(t)
            c.sample(smp)
    # a mask in text format
    d = c.dir('text')
    boxes = [(112., 116., -18., -14.), (108., 110., -28., -22.)]
    write_land(os.path.join(d, 'land.txt'), boxes, 100., 130., .25)
    ini = tc.write_ini(os.path.join(d, 'c.ini'), {'Input': {'LandMask': os.path.join(d, 'land.txt')}})
    spots = [(c.rng.uniform(105., 120.), c.rng.uniform(-30., -10.)) for _ in range(40)] + [(114., -16.), (109., -25.), (114., -25.)]
    q = c.call(lambda: [bool(L.LandfallDecay(ini, 1).onLand(*s)) for s in spots])
    traces.append({'cfg': dict(traces[0]['cfg'] if traces else {}, edge=260000, boxes=[dict(zip(('x0', 'x1', 'y0', 'y1'), [int(z * 1e6) for z in b])) for b in boxes]),
                   'ev': [{'t': 'place', 'x': int(s[0] * 1e6), 'y': int(s[1] * 1e6), 'land': z} for s, z in zip(spots, q[1])] if q[0] == 'ok'
                   else [{'t': 'fail', 'what': str(q[1])[:600]}], 'about': {'mask': 'text', 'land': boxes}, 'key': 'text-land-mask'})
    if stats['storms'] < 20 and not any(e['t'] == 'fail' for t in traces for e in t['ev']):
        raise vf.CheckError('too few storms generated')
    n = len(traces)
    ctrl = []
    for t in traces:
        if not (t['cfg']['ks'] and t['cfg']['kl']):
            continue
        ks = [i for i, e in enumerate(t['ev']) if e['t'] == 'point' and not e['bad'] and e['age'] > 0 and
              all(e['x'] % 360000000 < q['x0'] - 600000 or e['x'] % 360000000 > q['x1'] + 600000 or
                  e['y'] < q['y0'] - 600000 or e['y'] > q['y1'] + 600000 for q in t['cfg']['boxes'])]
        if not ks:
            continue

        def broken(i, **kw):
            ev = [dict(e) for e in t['ev']]
            ev[i].update(kw)
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
        i = c.rng.choice(ks)
        e = t['ev'][i]
        broken(i, v=e['v'] + 10)
        broken(i, b=(e['b'] + 100) % 360000)
        broken(i, p=e['p'] + 9000)
        broken(i, p=e['env'])
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Course', allt, expect_reject=idx)
    c.judge('Course', allt, res, idx)
    c.finish(scenarios=n, **stats)


vf.main(run)
