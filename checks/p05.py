"""P05: every generated storm is valid."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import trackenv
import math
import random
import shutil
import numpy as np


def storm_events(sim, tid, dates, cols, getPoci, k, dt, origin, prescribed=False):
    """Point events of one storm. cols: dict of plain float lists."""
    ev = [{'t': 'storm', 'id': tid[0], 'sim': tid[1]}]
    n = len(cols['x'])

    def fin(i):
        return all(math.isfinite(cols[c][i]) for c in cols)
    resid, seam = [], set()
    for i in range(n):
        if not fin(i):
            resid.append(float('nan'))
            continue
        d = dates[i]
        jday = (d.timetuple().tm_yday + d.hour / 24. + d.minute / 1440.) % 365
        # the climatology of the day of genesis, or of the hour
        pe = float(trackenv.mslp_at(jday if i else int(jday) + .5, cols['y'][i], cols['x'][i], k))
        if jday >= 363. or jday < 1.5:
            seam.add(i)
        resid.append(cols['env'][i] - float(getPoci(max(pe, cols['p'][i] + 0.01), cols['p'][i],
                                                    cols['y'][i], jday, 0.)))
    mid = float(np.nanmedian(resid)) if resid else 0.
    # the climatology is interpolated coarsely across the 0/360 degree seam (and the new year)
    prescribed = prescribed or min(cols['x']) < 12.
    for i in range(n):
        if not fin(i):
            ev.append({'t': 'point', 'bad': True})
            continue
        off = 0
        if i:
            dist = cols['speed'][i - 1] * dt
            x, y = trackenv.move(cols['x'][i - 1], cols['y'][i - 1], cols['bear'][i - 1], dist)
            dx = (x - cols['x'][i] + 180.) % 360. - 180.
            err = math.hypot(dx * math.cos(math.radians(y)), y - cols['y'][i]) * 111.2
            off = int(1000 * max(0., err - 0.3) / max(dist, 1.))
        ev.append({'t': 'point', 'bad': False, 'age': int(round(cols['age'][i] * 3600)),
                   'clock': int(round((dates[i] - dates[0]).total_seconds())),
                   'x': int(round(cols['x'][i] * 1000)), 'y': int(round(cols['y'][i] * 1000)),
                   'speed': int(round(cols['speed'][i] * 1000)),
                   'bear': int(round(cols['bear'][i] * 1000)),
                   'p': int(round(cols['p'][i] * 1000)), 'env': int(round(cols['env'][i] * 1000)),
                   'envoff': 0 if prescribed or i in seam else int(1000 * abs(resid[i] - mid)),
                   'r': int(round(cols['r'][i] * 10)), 'off': min(off, 10 ** 6),
                   'origin': bool(origin(cols['x'][i], cols['y'][i])) if i == 0 else True})
    ev.append({'t': 'close'})
    return ev


def run():
    c = vf.Check('P05')
    c.source()
    tc.quiet()
    c.model_check('Genesis', min_states=1000)
    import TrackGenerator.TrackGenerator as T
    import TrackGenerator.trackLandfall as L
    from Utilities.loadData import getPoci
    traces = []
    stats = {'storms': 0, 'points': 0, 'inner_domain': 0, 'prescribed_genesis': 0, 'over_land': 0,
             'northern_hemisphere': 0, 'genesis_at_edge': 0, 'longest_lifetime_reached': 0}
    N = 98 if c.quick else 700

    def one(g):
        rng = random.Random('%d/%d' % (c.seed, g))
        st = dict.fromkeys(stats, 0)
        d = c.dir('case')
        x0 = rng.choice([-20, -10, 0, 90, 105, 140, 160, 170])
        y0 = rng.choice([-30, -30, -25, 5, 10, -10])
        w = rng.choice([20, 25, 35])
        k = rng.randint(0, 3)
        edge = g % 4 == 1
        land = [0., .3, .9][g % 3]
        dom = (x0, x0 + w, y0, y0 + 20)
        sec = trackenv.make(d, rng, dom, k=k, land=land, edge=edge,
                            strong=g % 5 == 2, pascal=g % 7 == 3, late=g % 5 == 4,
                            speed=rng.choice([(2., 20.), (5., 40.), (30., 90.)]),
                            rate=rng.choice([(-0.5, 0.2), (-2., 0.), (-0.1, 1.)]))
        dt = rng.choice([0.5, 1, 2, 3, 6])
        maxn = rng.choice([int(12 / dt) + 1, int(30 / dt), int(80 / dt)])
        sim = rng.randint(0, 3)
        seed = rng.randint(1, 10 ** 6)
        sec['TrackGenerator'].update(NumSimulations=sim + 1, NumTimeSteps=maxn, TimeStep=dt,
                                     Frequency=rng.choice([2, 5]), SeasonSeed=seed + 1,
                                     TrackSeed=seed, YearsPerSimulation=rng.choice([1, 2]))
        ini = tc.write_ini(os.path.join(d, 'c.ini'), sec)
        from netCDF4 import Dataset
        nc = Dataset(os.path.join(d, 'output', 'process', 'originPDF.nc'))
        olon, olat, oz = [np.array(nc.variables[v][:]) for v in ('lon', 'lat', 'gpdf')]
        nc.close()

        def origin(x, y):
            i, j = int(np.abs(olon - x).argmin()), int(np.abs(olat - y).argmin())
            return abs(olon[i] - x) < 1e-3 and abs(olat[j] - y) < 1e-3 and oz[j, i] > 0
        mode = 'file' if g % 3 != 2 else ('inner' if g % 2 else 'prescribed')
        box = dom
        want = None
        kw = {}
        key = None
        if g == N - 1:
            # size distribution from the data
            trackenv.write_cdf(os.path.join(d, 'output', 'process', 'all_cell_cdf_init_rmax.nc'),
                               ((dom[1] - dom[0]) // 5) * 4, np.arange(10., 80., 2.), rng)
            mode = 'file'
            key = 'rmw-distribution-from-data'
        if mode == 'inner':
            box = (x0 + 1, x0 + w - 1, y0 + 1, y0 + 19)
        if mode == 'prescribed':
            kw = {'initLon': 0. if x0 < 0 < x0 + w else float(x0 + w // 2), 'initLat': 0. if y0 == -10 else y0 + 10.,
                  'initBearing': rng.choice([0., 90., 270.]),
                  'initPressure': 960., 'initEnvPressure': 1008.}
            if rng.random() < .5:
                kw['initSpeed'] = 12.

        def generate():
            fakempi.no_mpi()
            if mode == 'file':
                T.run(ini)
                p = os.path.join(d, 'output', 'tracks', 'tracks.%05d.nc' % sim)
                return trackenv.from_file(p) if os.path.exists(p) else []
            from Utilities.parallel import attemptParallel
            T.MPI = attemptParallel()
            lim = dict(xMin=dom[0], xMax=dom[1], yMin=dom[2], yMax=dom[3])
            tg = T.TrackGenerator(os.path.join(d, 'output', 'process'), lim, {'x': 5, 'y': 5},
                                  {'x': 1.0, 'y': 0.5}, T.SamplePressure(os.path.join(d, 'mslp.nc')),
                                  L.LandfallDecay(ini, dt), dt=dt, maxTimeSteps=maxn,
                                  innerGridLimit=dict(xMin=box[0], xMax=box[1], yMin=box[2],
                                                      yMax=box[3]) if mode == 'inner' else None)
            tg.loadInitialConditionDistributions()
            tg.loadCellStatistics()
            T.PRNG = T.random.Random(seed=seed, stream=sim)
            return [trackenv.from_track(t) for t in tg.generateTracks(want, sim, **kw)]
        if mode != 'file':
            want = rng.randint(1, 6)
        r = c.call(generate, timeout=45)
        about = {'domain': dom, 'dt': dt, 'max_points': maxn, 'mode': mode, 'land': land,
                 'edge': edge, 'prescribed': kw, 'seed': seed}
        ev = []
        if r[0] != 'ok':
            if r[0] == 'timeout' and mode != 'file':
                # no valid storm can start here: nothing was generated
                shutil.rmtree(d)
                return None, st, None
            ev.append({'t': 'fail', 'what': str(r[1])[:600]})
        else:
            for tid, ds, cols in r[1]:
                st['storms'] += 1
                st['points'] += len(cols['x'])
                st['longest_lifetime_reached'] += len(cols['x']) == maxn
                e = storm_events(sim, tid, ds, cols, getPoci, k, dt,
                                 origin if not kw else
                                 (lambda x, y: abs(x - kw['initLon']) < 1e-3 and
                                  abs(y - kw['initLat']) < 1e-3), prescribed=bool(kw))
                if kw and abs((cols['bear'][0] - kw['initBearing'] + 180) % 360 - 180) > 1e-3:
                    e[1]['origin'] = False
                ev += e
            if want is not None:
                ev.append({'t': 'count', 'n': want})
        st['inner_domain'] += mode == 'inner'
        st['prescribed_genesis'] += mode == 'prescribed'
        st['over_land'] += land > 0
        st['northern_hemisphere'] += y0 > 0
        st['genesis_at_edge'] += edge
        cfg = {'x0': box[0] * 1000, 'x1': box[1] * 1000, 'y0': box[2] * 1000, 'y1': box[3] * 1000,
               'dt': int(round(dt * 3600)), 'maxn': maxn, 'sim': sim, 'tol': 20, 'envtol': 100}
        shutil.rmtree(d)
        return {'cfg': cfg, 'ev': ev, 'about': about, 'key': key}, st, {'about': about, 'events': ev[:3]}
    for t, st, smp in c.pmap(one, range(N), timeout=700):
        for k in st:
            stats[k] += st[k]
        if t:
            traces.append(t)
            c.sample(smp)
    if stats['storms'] < 10:
        raise vf.CheckError('too few storms generated')
    n = len(traces)
    ctrl = []
    for t in traces:
        ks = [i for i, e in enumerate(t['ev']) if e['t'] == 'point' and not e['bad']]
        later = [i for i in ks if t['ev'][i]['age'] > 0]
        if not later:
            continue

        def broken(i, **kw):
            ev = [dict(e) for e in t['ev']]
            ev[i].update(kw)
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
        i = c.rng.choice(later)
        e = t['ev'][i]
        broken(i, x=t['cfg']['x1'] + 1)
        broken(i, p=e['env'])
        broken(i, age=e['age'] + 1)
        broken(i, off=21)
        broken(i, r=40)
        broken(i, envoff=101)
        ctrl.append({'cfg': t['cfg'], 'ev': t['ev'] + t['ev'][:t['ev'].index({'t': 'close'}) + 1]})
        ctrl.append({'cfg': dict(t['cfg'], maxn=1), 'ev': t['ev']})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Track', allt, expect_reject=idx)
    for r in res[:n]:
        if r and r[1].startswith('machinery'):
            raise vf.CheckError(r[1])
    c.judge('Track', allt, res, idx)
    c.finish(scenarios=n, **stats)


vf.main(run)
