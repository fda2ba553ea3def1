"""P18: time series at stations hold each station's own wind history."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import trackenv
import csv
import datetime
import math
import shutil
import numpy as np

SAFE = [('powell', 'kepert'), ('holland', 'kepert'), ('holland', 'hubbert'), ('schloemer', 'mcconochie')]
IDS = ['A1', 'tsunami', 'csv1', 'st.c', '00123', '7', '94120', 'Port-01', 'sts', 'vcs', '1.50', 'c', 't', '3000000']
BASE = datetime.datetime(1900, 1, 1)


def minutes(t):
    return int(round((t - BASE).total_seconds() / 60.))


def h(x):
    return int(round(float(x) * 100))


def m(x):
    return int(round(float(x) * 1e5))


def write_shp(path, stations):
    import shapefile
    w = shapefile.Writer(path, shapeType=shapefile.POINT)
    w.field('SID', 'C', 12)
    w.field('OTHER', 'N', 12)
    for k, (i, x, y) in enumerate(stations):
        w.point(x, y)
        w.record(i, k + 500)
    w.close()


def step_event(s, time, f):
    """f: speed, u, v, pressure, lon, lat of one time step."""
    g, u, v, p, x, y = f
    ix, iy = np.argsort(x), np.argsort(y)
    pick = lambda a: [[h(q) for q in r] for r in np.asarray(a)[np.ix_(iy, ix)]]
    return {'t': 'step', 'storm': s, 'time': time, 'gx': [m(q) for q in np.asarray(x)[ix]],
            'gy': [m(q) for q in np.asarray(y)[iy]], 's': pick(g), 'u': pick(u), 'v': pick(v), 'p': pick(p)}


def row(r):
    """A line of one of the csv files."""
    b = math.radians(float(r['Bearing']))
    return {'time': minutes(datetime.datetime.strptime(r['Time'].strip(), '%Y-%m-%d %H:%M')),
            'x': m(r['Longitude']), 'y': m(r['Latitude']), 's': h(r['Speed']), 'u': h(r['UU']), 'v': h(r['VV']),
            'p': h(r['Pressure']), 'sb': int(round(1000 * math.sin(b))), 'cb': int(round(1000 * math.cos(b)))}


def results(out, stations):
    """Events of everything that was written under directory out."""
    at = {s[0]: k + 1 for k, s in enumerate(stations)}
    ev = []
    d = os.path.join(out, 'process', 'timeseries')
    for n in sorted(os.listdir(d)):
        rows = list(csv.DictReader(open(os.path.join(d, n))))
        name = n[len('ts.'):-len('.csv')]
        ids = {r['Station'] for r in rows}
        ev.append({'t': 'series', 'st': at.get(name, 0) if ids == {name} else 0, 'rows': [row(r) for r in rows]})
    for n, t in (('maxima.csv', 'top'), ('minima.csv', 'low')):
        p = os.path.join(out, 'process', n)
        if os.path.exists(p):
            for r in csv.DictReader(open(p)):
                ev.append({'t': t, 'st': at.get(r['Station'], 0), 'row': row(r)})
    return ev


def stations_for(rng, box, res, n):
    """Stations on grid points, between them, on the border and outside."""
    x0, x1, y0, y1 = box
    ids = rng.sample(IDS, n)
    out = []
    for k, i in enumerate(ids):
        kind = rng.randrange(7)
        x = round(x0 + res * rng.randint(0, int((x1 - x0) / res)), 3)
        y = round(y0 + res * rng.randint(0, int((y1 - y0) / res)), 3)
        if kind == 1:
            x, y = round(x + res / 2, 4), round(y + res / 2, 4)
        elif kind in (2, 3):
            x, y = round(rng.uniform(x0, x1), 4), round(rng.uniform(y0, y1), 4)
        elif kind == 4:
            if rng.random() < .5:
                x = rng.choice([x0, x1])
            else:
                y = rng.choice([y0, y1])
        elif kind == 5:
            x = round(rng.choice([x0 - 30., x1 + 30.]), 3)
            if x < 0:
                x = round(x1 + 30., 3)
        elif kind == 6 and out:
            x, y = out[-1][1:]
        out.append((i, x, y))
    return out


def run():
    c = vf.Check('P18')
    c.source(exts=('Utilities._akima', 'Utilities._maputils', 'PressureInterface._pressureProfile',
                   'wind._windmodels'))
    tc.quiet()
    c.model_check('StationSeriesMC', min_states=500)
    c.refute('StationSeriesMC', 'StationSeriesMCAlone', 'Complete')
    import wind
    from Utilities import track as trackmod
    import Utilities.timeseries as tsmod
    import Utilities.shptools
    import PlotInterface.plotTimeseries as plotter
    traces = []
    stats = {'series': 0, 'stations': 0, 'steps': 0, 'direct': 0, 'runs': 0, 'parallel_runs': 0, 'repeated_runs': 0,
             'station_shapefiles': 0, 'plots': 0, 'stations_outside': 0}
    stopped = [{'t': 'stopped'}]

    def add(stations, nst, steps, r, info):
        cfg = {'st': [{'x': m(x), 'y': m(y)} for _, x, y in stations], 'storms': nst, 'tol': 1}
        info = dict(info, stations=stations)
        if r[0] != 'ok':
            traces.append({'cfg': cfg, 'ev': steps + stopped, 'about': dict(info, error=str(r[1])[:900])})
            return
        traces.append({'cfg': cfg, 'ev': steps + r[1], 'about': info})
        have = sum(e['t'] == 'series' for e in r[1])
        stats['series'] += have
        stats['stations'] += len(stations)
        stats['stations_outside'] += len(stations) - have
        stats['steps'] += len(steps)

    # grids handed directly to the extraction
    for k in range(60 if c.quick else 600):
        rng = c.rng
        res = rng.choice([0.5, 0.25, 0.2, 0.05])
        x0, y0 = rng.choice([0., 110.2, 178.5, 300.]), rng.choice([-25., -18.4, 12., -0.5])
        nx, ny = rng.randint(1, 9), rng.randint(1, 9)
        box = (x0, round(x0 + (nx + 3) * res, 3), y0, round(y0 + (ny + 3) * res, 3))
        stations = stations_for(rng, box, res, rng.choice([1, 2, 3, 6]))
        nst = rng.randint(1, 3)
        fields = []
        weak = rng.random() < .15
        g = np.random.RandomState(rng.randrange(2 ** 31))
        for s in range(nst):
            t = datetime.datetime(rng.randint(1950, 2999), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23))
            dt = rng.choice([60, 15, 90, 180])
            for i in range(rng.randint(1, 4)):
                ax = np.round(x0 + res * (rng.randint(0, 3) + np.arange(nx)), 5)
                ay = np.round(y0 + res * (rng.randint(0, 3) + np.arange(ny)), 5)
                spd = g.rand(ny, nx) * 60
                if rng.random() < .2:
                    spd = np.round(spd / 20) * 20       # equal values and calm
                elif weak or rng.random() < .1:
                    spd = spd * (.01 if weak else .05)
                th = g.rand(ny, nx) * 2 * np.pi
                prs = 92000 + 9000 * g.rand(ny, nx)
                fields.append((s + 1, t, [spd, spd * np.sin(th), spd * np.cos(th), prs, ax, ay]))
                t += datetime.timedelta(minutes=dt)
        d = c.dir('direct')

        def direct():
            fakempi.no_mpi()
            out = os.path.join(d, 'output')
            os.makedirs(os.path.join(out, 'process', 'timeseries'))
            f = os.path.join(d, 'stations.csv')
            with open(f, 'w') as fh:
                for s in stations:
                    fh.write('%s,%s,%s%s\n' % (s + (',5,6' if k % 3 == 0 else '',)))
            ts = tsmod.Timeseries(tc.write_ini(os.path.join(d, 'c.ini'), {
                'Output': {'Path': out}, 'Timeseries': {'Extract': 'True', 'LocationFile': f}}))
            for _, t, a in fields:
                ts.extract(t, *a)
            ts.shutdown()
            return results(out, stations)
        r = c.call(direct, timeout=60)
        shutil.rmtree(d)
        stats['direct'] += 1
        add(stations, nst, [step_event(s, minutes(t), a) for s, t, a in fields], r, {'mode': 'direct'})

    # whole runs of the wind field stage
    for k in range(16 if c.quick else 90):
        rng = c.rng
        pt, ft = rng.choice(SAFE)
        res = rng.choice([0.5, 0.25, 0.4])
        mar = round(res * rng.choice([2, 3]), 4)
        nx, ny = rng.randint(3, 6), rng.randint(3, 6)
        x0, y0 = rng.choice([110.2, 128.2, 150., 300.3]), rng.choice([-25., -18.4, 12., 20.3])
        lim = {'xMin': x0, 'xMax': round(x0 + nx * res, 3), 'yMin': y0, 'yMax': round(y0 + ny * res, 3)}
        box = (lim['xMin'], lim['xMax'], lim['yMin'], lim['yMax'])
        dom = 'full' if k % 3 == 2 else 'bounded'
        files = rng.randint(1, 3)
        plots = k in (0, 1)          # plots are of storms of one season
        start = 700000 if plots else None
        tracks = [[trackenv.random_track(rng, box, rng.randint(2, 5), margin=res, start=start) for _ in range(rng.randint(1, 2))]
                  for _ in range(files)]
        stations = stations_for(rng, box, res, rng.choice([1, 3, 5]))
        shp = k % 4 == 1
        procs = [1, 2, 1, 3][k % 4]
        again = k % 5 == 3
        d = c.dir('case')
        out = os.path.join(d, 'output')
        for q in ('tracks', 'windfield', 'process/timeseries', 'plots/timeseries'):
            os.makedirs(os.path.join(out, q))
        names = []
        for i, tt in enumerate(tracks):
            names.append(os.path.join(out, 'tracks', 'tracks.%05d.nc' % (i + 1)))
            trackenv.write_tracks(names[-1], tt, i + 1)
        tsec = {'Extract': 'True'}
        if shp:
            f = os.path.join(d, 'stations.shp')
            write_shp(f, stations)
            tsec['StationID'] = 'SID'
        else:
            f = os.path.join(d, 'stations.csv')
            with open(f, 'w') as fh:
                for s in stations:
                    fh.write('%s,%s,%s\n' % s)
        tsec['LocationFile'] = f
        sec = {'Region': {'gridLimit': repr(lim)}, 'Output': {'Path': out}, 'Timeseries': tsec,
               'WindfieldInterface': {'profileType': pt, 'windFieldType': ft, 'beta': 1.3, 'beta1': 1.5,
                                      'beta2': 1.4, 'thetaMax': 70., 'Margin': mar, 'Resolution': res, 'Domain': dom}}
        ini = tc.write_ini(os.path.join(d, 'c.ini'), sec)

        def fields():
            """What the wind model says at every step, storm by storm."""
            fakempi.no_mpi()
            ev, s = [], 0
            for n in names:
                for t in trackmod.ncReadTrackData(n):
                    s += 1
                    got = []
                    w = wind.WindfieldAroundTrack(t, profileType=pt, windFieldType=ft, beta=1.3, beta1=1.5, beta2=1.4,
                                                  thetaMax=70., margin=mar, resolution=res, gridLimit=dict(lim), domain=dom)
                    w.regionalExtremes(dict(lim), lambda *a: got.append([np.array(z) for z in a[1:]]))
                    times = [q for q, x, y in zip(t.Datetime, t.Longitude, t.Latitude)
                             if box[0] <= x <= box[1] and box[2] <= y <= box[3]]
                    if len(times) != len(got):
                        return None
                    ev += [step_event(s, minutes(q), a) for q, a in zip(times, got)]
            return s, ev
        ref = c.call(fields, timeout=120)
        if ref[0] != 'ok' or ref[1] is None:
            # which steps count is a matter of the wind fields themselves
            c.log('no reference fields: %s' % str(ref[1])[:300])
            shutil.rmtree(d)
            continue
        nst, steps = ref[1]

        def serial():
            fakempi.no_mpi()
            wind.run(ini)
            return True

        def rank(r, n):
            tc.quiet()
            wind.run(ini)
            return True
        problem = None
        for _ in range(2 if again else 1):
            if procs == 1:
                r = c.call(serial, timeout=120)
                problem = None if r[0] == 'ok' else r[1]
            else:
                R = fakempi.run(procs, rank, fakempi.random_picker(c.seed + k), listing=c.seed + k)
                problem = R.problem()
            if problem:
                break
        if problem:
            r = ('exc', problem)
        else:
            r = c.call(lambda: results(out, stations))
        if r[0] == 'ok' and plots:
            def draw():
                fakempi.no_mpi()
                plotter.plotTimeseries(os.path.join(out, 'process', 'timeseries'), os.path.join(out, 'plots', 'timeseries'))
                return sorted(os.listdir(os.path.join(out, 'plots', 'timeseries')))
            p = c.call(draw, timeout=120)
            if p[0] != 'ok':
                r = p
            else:
                at = {'ts.%s.png' % s[0]: i + 1 for i, s in enumerate(stations)}
                r = ('ok', r[1] + [{'t': 'plots', 'st': [at.get(q, 0) for q in p[1]]}])
                stats['plots'] += len(p[1])
        shutil.rmtree(d)
        stats['runs'] += 1
        stats['parallel_runs'] += procs > 1
        stats['repeated_runs'] += again
        stats['station_shapefiles'] += shp
        add(stations, nst, steps, r, {'mode': 'run', 'processes': procs, 'repeated': again, 'shapefile': shp,
                                      'domain': dom, 'limits': lim, 'tracks': tracks})
    if stats['series'] < 20 or stats['runs'] < 8:
        raise vf.CheckError('too few series: %s' % stats)
    n = len(traces)
    ctrl = []
    for t in c.rng.sample(traces, min(40, n)):
        ev = t['ev']
        se = [i for i, e in enumerate(ev) if e['t'] == 'series']
        if not se:
            continue
        i = c.rng.choice(se)
        e = ev[i]

        def put(new, at=i):
            ctrl.append({'cfg': t['cfg'], 'ev': ev[:at] + new + ev[at + 1:]})
        put([dict(e, rows=e['rows'][:-1])])
        put([])
        q = e['rows'][0]
        put([dict(e, rows=[dict(q, s=q['s'] + 700)] + e['rows'][1:])])
        put([dict(e, rows=[dict(q, time=q['time'] + 60)] + e['rows'][1:])])
        for f, key, up in (('top', 's', -1), ('low', 'p', 1)):
            for j, x in enumerate(ev):
                if x['t'] == f and x['st'] == e['st']:
                    put([], j)
                    o = [y for y in e['rows'] if up * (y[key] - x['row'][key]) > 0]
                    if o:
                        put([dict(x, row=o[0])], j)
        if len(e['rows']) > 1 and len({y['time'] for y in e['rows']}) == len(e['rows']) and t['cfg']['storms'] == 1:
            put([dict(e, rows=e['rows'][::-1])])
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('StationSeries', allt, expect_reject=idx)
    c.judge('StationSeries', allt, res, idx)
    c.sample({'about': {k: v for k, v in traces[-1]['about'].items() if k != 'tracks'}})
    c.finish(**stats)


vf.main(run)
