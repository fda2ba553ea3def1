"""P25: runs for single events."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import trackenv
import interp
import csv
import math
import random
import shutil
import traceback
from datetime import datetime, timedelta
import numpy as np

BASE = datetime(1900, 1, 1)
SAFE = [('powell', 'kepert'), ('holland', 'kepert'), ('holland', 'hubbert'), ('schloemer', 'mcconochie')]
HAZIMP = """#!%s
import os, sys, yaml
q = yaml.safe_load(open(sys.argv[sys.argv.index('-c') + 1]))
d = {}
for x in q:
    d.update(x)
with open(os.path.join(%r, 'calls'), 'a') as f:
    f.write('|'.join([d['load_exposure']['file_name'], d['load_wind_ascii'], d['save']]) + '\\n')
sys.exit(%d)
"""


def minutes(t):
    return int(round((datetime(t.year, t.month, t.day, t.hour, t.minute, t.second) - BASE).total_seconds() / 60.))


def h(x):
    return int(round(float(x) * 100))


def random_storm(rng, origin, t0, far):
    """Records (minutes, lon, lat, pc, poci, rmax) of a storm."""
    n = rng.choice([1, 2, 3, 4, 5, 6])
    x, y = origin
    vx, vy = rng.uniform(-.25, .25), rng.uniform(-.25, .25)
    gaps = rng.choice([[60], [180], [5, 37, 60, 120], [3, 60], [30, 90]])
    out, t = [], t0
    poci, rm = rng.uniform(1000., 1012.), rng.uniform(15., 60.)
    fast = rng.random() < far           # from far away
    if fast:
        vx, vy = rng.choice([(1.2, .1), (-1.2, .1), (.1, 1.), (.1, -1.)])
        x, y, n = x - 5 * vx, y - 5 * vy, max(n, 4)
        gaps = [120]
    for i in range(n):
        out.append((t, round(x, 2), round(y, 2), round(poci - rng.uniform(8., 80.), 1), round(poci, 1), round(rm, 1)))
        g = rng.choice(gaps)
        vx += rng.uniform(-.1, .1)
        vy += rng.uniform(-.1, .1)
        t += g
        x += vx * g / 60.
        y += vy * g / 60.
        poci += rng.uniform(-1, 1)
        rm = max(10., rm + rng.uniform(-5, 5))
    return out


def scenario(seed):
    """A random configuration of the script."""
    rng = random.Random(seed)
    kind = rng.choice(['csv', 'csv', 'csv', 'nc'])
    region = rng.random() < .5
    ns = rng.choice([1, 2, 3]) if region else 1
    ox, oy = rng.choice([20., 115.5, 178.7, 300.2]), rng.choice([-30., -17.6, 11., 24.5])
    t0 = minutes(datetime(rng.randint(1950, 2020), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.choice([0, 0, 30])))
    storms, t = [], t0
    for k in range(ns):
        o = (ox + rng.uniform(-2., 2.), oy + rng.uniform(-2., 2.))
        if region and rng.random() < .2:
            o = (o[0] + rng.choice([-9., 9.]), o[1])
        storms.append(random_storm(rng, o, t, .5 if region else .15))
        t = storms[-1][-1][0] + 60 * rng.randint(24, 500)
    xs = [r[1] for s in storms for r in s]
    ys = [r[2] for s in storms for r in s]
    wide = {'xMin': math.floor(min(xs)) - 2., 'xMax': math.ceil(max(xs)) + 2.,
            'yMin': math.floor(min(ys)) - 2., 'yMax': math.ceil(max(ys)) + 2.}
    lim = None
    if region:
        lim = dict(wide)
        if rng.random() < .5:        # storms leave and enter the region
            lim = {'xMin': math.floor(ox) - 2., 'xMax': math.floor(ox) + 3., 'yMin': math.floor(oy) - 2., 'yMax': math.floor(oy) + 2.}
    pt, ft = rng.choice(SAFE)
    res = rng.choice([.25, .5, .2])

    def at(v):
        """A place on the grid near v."""
        return round(round((v + rng.uniform(-1., 1.)) / res) * res, 2)
    return {'kind': kind, 'storms': storms, 'lim': lim, 'wide': wide, 'margin': rng.choice([1., 2.]),
            'res': res, 'profile': pt, 'field': ft, 'domain': rng.choice(['bounded', 'bounded', 'full']) if region else 'bounded',
            'own': region and rng.random() < .3, 'west': rng.random() < .3, 'knots': rng.random() < .3,
            'stations': [(at(rng.choice(xs)), at(rng.choice(ys))) for _ in range(rng.randint(1, 3))],
            'column': rng.choice(['index', 'tcserialno', 'num']),
            'series': rng.random() < .4, 'impact': rng.choice(['no', 'no', 'yes', 'fails']), 'plot': ns == 1 and rng.random() < .5,
            'bad': rng.random() < .06, 'ready': rng.random() < .3, 'again': rng.random() < .15, 'no': rng.randint(0, 99)}


def write_input(d, q, storms):
    if q['kind'] == 'nc':
        name = os.path.join(d, 'tracks.%03d-%05d.nc' % (0, q['no']))
        trackenv.write_tracks(name, [[(24 + r[0] / 60., (r[0] - s[0][0]) / 60., r[1], r[2], 10., 200., r[3], r[4], r[5])
                                      for r in s] for s in storms], q['no'])
        # (the dates of these files are julian, a day later)
        return name, {}
    name = os.path.join(d, 'scenario.csv')
    with open(name, 'w') as f:
        f.write('a heading\n')
        for k, s in enumerate(storms):
            for i, r in enumerate(s):
                t = BASE + timedelta(minutes=r[0])
                x = r[1] - 360. if q['west'] and r[1] > 180. else r[1]
                rm = r[5] / 1.852 if q['knots'] else r[5]
                first = {'index': int(i == 0), 'tcserialno': 'B%d' % k, 'num': k % 3 + 1}[q['column']]
                f.write('%s,x,%s,%.2f,%.2f,%.1f,%.5f,%.1f,7\n' % (first, t.strftime('%Y%m%d %H:%M'), r[2], x, r[3], rm, r[4]))
    return name, {'Mine': {'Columns': q['column'] + ',skip,date,lat,lon,pressure,rmax,poci,skip', 'FieldDelimiter': ',',
                           'NumberOfHeadingLines': 1, 'PressureUnits': 'hPa', 'SpeedUnits': 'kts',
                           'LengthUnits': 'nm' if q['knots'] else 'km', 'DateFormat': '%Y%m%d %H:%M'}}


def configure(d, q, storms, lim, full=True):
    """Write input and configuration below d; returns the configuration file."""
    os.makedirs(d)
    name, sec = write_input(d, q, storms)
    if q['bad'] and full:
        name = os.path.join(d, 'elsewhere.csv')
    sec['DataProcess'] = {'InputFile': name, 'Source': 'Mine', 'FilterSeasons': 'False'}
    sec['WindfieldInterface'] = {'profileType': q['profile'], 'windFieldType': q['field'], 'beta': 1.3, 'beta1': 1.5, 'beta2': 1.4,
                                 'thetaMax': 70., 'Margin': q['margin'], 'Resolution': q['res'], 'Domain': q['domain'],
                                 'PlotOutput': full and q['plot']}
    if lim:
        if q['own'] and full:
            sec['WindfieldInterface']['gridLimit'] = repr(lim)
            if q['no'] % 2:
                sec['Region'] = {'gridLimit': repr({k: v + (3. if k[1:] == 'Max' else -3.) for k, v in lim.items()})}
        else:
            sec['Region'] = {'gridLimit': repr(lim)}
    sec['Timeseries'] = {'Extract': full and q['series'], 'LocationFile': os.path.join(d, 'stations.csv')}
    with open(os.path.join(d, 'stations.csv'), 'w') as f:
        for i, s in enumerate(q['stations']):
            f.write('S%d,%.4f,%.4f\n' % (i + 1, s[0], s[1]))
    mslp = os.path.join(d, 'mslp.nc')
    trackenv.write_mslp(mslp)
    sec['Input'] = {'MSLPFile': mslp}
    sec['Output'] = {'Path': os.path.join(d, 'output')}
    sec['Logging'] = {'LogFile': os.path.join(d, 'log', 'a.log'), 'LogLevel': 'INFO', 'Verbose': 'False',
                      'ProgressBar': 'False', 'NewLog': 'True', 'DateStamp': 'False'}
    if full and q['impact'] != 'no':
        sec['Actions'] = {'ExecuteImpact': 'True'}
        sec['Impact'] = {'Exposure': os.path.join(d, 'exposure.csv')}
        b = os.path.join(d, 'bin')
        os.makedirs(b)
        with open(os.path.join(b, 'hazimp'), 'w') as f:
            f.write(HAZIMP % (sys.executable, d, 3 if q['impact'] == 'fails' else 0))
        os.chmod(os.path.join(b, 'hazimp'), 0o755)
        os.environ['PATH'] = b + os.pathsep + os.environ['PATH']
    return tc.write_ini(os.path.join(d, 'c.ini'), sec)


def winds(d):
    """Wind fields below directory d: (track, set) -> lon, lat, vmax."""
    out = {}
    w = os.path.join(d, 'output', 'windfield')
    for n in sorted(os.listdir(w)) if os.path.isdir(w) else []:
        p = n.split('.')
        if n.startswith('gust.') and n.endswith('.nc') and len(p) == 3:
            g = tc.read_nc(os.path.join(w, n), ('lon', 'lat', 'vmax'))
            ix, iy = np.argsort(g['lon']), np.argsort(g['lat'])
            out[tuple(int(v) for v in p[1].split('-'))] = (g['lon'][ix], g['lat'][iy], g['vmax'][np.ix_(iy, ix)])
        else:
            out[n] = None
    return out


def differs(a, b):
    """Largest difference (1/100 m/s) at the points two wind fields share."""
    ja, jb = {h(v): i for i, v in enumerate(a[0])}, {h(v): i for i, v in enumerate(b[0])}
    ka, kb = {h(v): i for i, v in enumerate(a[1])}, {h(v): i for i, v in enumerate(b[1])}
    x, y = sorted(set(ja) & set(jb)), sorted(set(ka) & set(kb))
    if not x or not y:
        return 999999
    p = a[2][np.ix_([ka[v] for v in y], [ja[v] for v in x])]
    r = b[2][np.ix_([kb[v] for v in y], [jb[v] for v in x])]
    m = np.abs(p - r).max()
    return int(min(999999, math.ceil(m * 100 - 1e-3))) if m == m else 999999


def execute(ini, maps=None):
    """The script's work for one configuration file; a text if it fails."""
    fakempi.no_mpi()
    import PlotInterface.maps as M
    if maps is not None:
        M.saveWindfieldMap = lambda data, x, y, *a, **k: maps.append((np.array(data), np.array(x), np.array(y)))
    import tcevent
    try:
        tcevent.main(ini)
    except Exception:        # the script reports it and ends
        return traceback.format_exc()[-900:]
    return None


def observe(d, q, ini, maps, failed, refs):
    """Events of a finished run."""
    from Utilities.track import ncReadTrackData
    nc = q['kind'] == 'nc'
    ids = [(k, q['no']) if nc else (k + 1, len(q['storms'])) for k in range(len(q['storms']))]
    ev, pts = [], None
    f = os.path.join(d, 'output', 'tracks', 'tracks.interp.nc')
    boxes = []
    if os.path.exists(f):
        tracks = ncReadTrackData(f)
        pts = interp.events(tracks)
        for k, t in enumerate(tracks):
            when = [minutes(v) for v in t.Datetime]
            lo, la = np.array(t.Longitude, float), np.array(t.Latitude, float)
            boxes.append((lo, la))
            ev.append({'t': 'track', 'k': k + 1, 'id': [int(v) for v in t.trackId], 'first': when[0], 'last': when[-1], 'n': len(when),
                       'box': {'x0': h(lo.min()), 'x1': h(lo.max()), 'y0': h(la.min()), 'y1': h(la.max())}})
    W = winds(d)
    num = {i: k + 1 for k, i in enumerate(ids)}
    lim = q['lim']
    for i, g in W.items():
        k = num.get(i, 0)
        e = {'t': 'gust', 'k': k, 'x0': 0, 'x1': 0, 'y0': 0, 'y1': 0, 'step': 0, 'blows': True, 'other': 0, 'alone': 0}
        if k and g is not None and k <= len(boxes):
            lo, la, v = g
            gap = np.append(np.diff(lo), np.diff(la))
            e.update(x0=h(lo[0]), x1=h(lo[-1]), y0=h(la[0]), y1=h(la[-1]), step=h(gap[0]) if np.ptp(gap) < 1e-6 else 0)
            bx, by = boxes[k - 1]
            inside = lim is None or bool(((lim['xMin'] < bx) & (bx < lim['xMax']) & (lim['yMin'] < by) & (by < lim['yMax'])).any())
            e['blows'] = bool(v.max() > .5) or not inside
            e['other'] = differs(g, refs['other'][i]) if i in refs['other'] else 0
            e['alone'] = differs(g, refs['alone'][k - 1]) if k - 1 in refs['alone'] else 0
        ev.append(e)
    got = {i: g for i, g in W.items() if g is not None}
    calls = os.path.join(d, 'calls')
    for l in sorted(open(calls)) if os.path.exists(calls) else []:
        exp, gust, save = l.strip().split('|')
        name = os.path.basename(gust.split(':')[1])
        p = name.split('.')[1]
        k = num.get(tuple(int(v) for v in p.split('-')), 0)
        ev.append({'t': 'impact', 'k': k, 'same': bool(exp == os.path.join(d, 'exposure.csv') and gust.startswith('NetCDF:') and
                                                       gust.endswith(':vmax') and gust.split(':')[1] == os.path.join(d, 'output', 'windfield', name) and
                                                       save == os.path.join(d, 'output', 'impact', name[:-3] + '.csv'))})
    for data, x, y in maps:
        ok, whole = False, False
        if len(got) == 1:
            lo, la, v = list(got.values())[0]
            jx, jy = {h(z): i for i, z in enumerate(lo)}, {h(z): i for i, z in enumerate(la)}
            if data.shape == x.shape == y.shape and all(h(z) in jx for z in x.flat) and all(h(z) in jy for z in y.flat):
                ref = np.array([v[jy[h(b)], jx[h(a)]] for a, b in zip(x.flat, y.flat)]).reshape(data.shape)
                ok = bool(np.abs(ref - data).max() < 1e-3)
                box = (lo[0], lo[-1], la[0], la[-1])
                if 'Region' in open(ini).read():
                    r = lim if not (q['own'] and q['no'] % 2) else None
                    if r:
                        box = (r['xMin'], r['xMax'], r['yMin'], r['yMax'])
                whole = bool(x.min() <= box[0] + q['res'] and x.max() >= box[1] - q['res'] and
                             y.min() <= box[2] + q['res'] and y.max() >= box[3] - q['res'])
        ev.append({'t': 'map', 'match': ok, 'whole': whole})
    if q['series'] and not q['bad']:
        for i, s in enumerate(q['stations']):
            f = os.path.join(d, 'output', 'process', 'timeseries', 'ts.S%d.csv' % (i + 1))
            top = 0
            if os.path.exists(f):
                top = max([h(r['Speed']) for r in csv.DictReader(open(f))] or [0])
            cell, calm = 0, True
            for lo, la, v in got.values():
                ax, ay = np.abs(lo - s[0]), np.abs(la - s[1])
                if ax.min() < 1e-6 and ay.min() < 1e-6:      # otherwise outside
                    cell = max(cell, h(v[ay.argmin(), ax.argmin()]))
                    calm = calm and not v[ay.argmin(), ax.argmin()] > 0
            ev.append({'t': 'series', 'st': i + 1, 'has': os.path.exists(f), 'top': top, 'cell': cell, 'calm': bool(calm),
                       'drawn': failed is not None or os.path.exists(os.path.join(d, 'output', 'plots', 'timeseries', 'ts.S%d.png' % (i + 1)))})
    ev.append({'t': 'end', 'ok': failed is None})
    return ids, ev, pts


def run():
    c = vf.Check('P25')
    c.source(exts=('Utilities._akima', 'Utilities._maputils', 'PressureInterface._pressureProfile', 'wind._windmodels'))
    tc.quiet()
    c.model_check('ScenarioMC', min_states=100000)
    c.refute('ScenarioMC', 'ScenarioMCNearest', 'Accepted')
    import wind                        # noqa: loaded once, before the processes fork
    import Evaluate.interpolateTracks  # noqa
    import PlotInterface.maps          # noqa
    import PlotInterface.plotTimeseries  # noqa
    from Utilities import timeseries   # noqa
    base = c.dir('p25')
    seeds = [c.rng.randrange(10 ** 9) for _ in range(90 if c.quick else 500)]

    def job(seed):
        q = scenario(seed)
        d = os.path.join(base, '%d' % seed)
        os.makedirs(d)
        refs = {'other': {}, 'alone': {}}
        try:
            def ref(name, storms, lim):
                return execute(configure(os.path.join(d, name), q, storms, lim, full=False))
            if not q['bad']:
                if q['lim'] is None:
                    r = c.call(ref, 'other', q['storms'], q['wide'], timeout=150)
                    if r[0] == 'ok' and r[1] is None:
                        refs['other'] = winds(os.path.join(d, 'other'))
                elif len(q['storms']) > 1:
                    for k, s in enumerate(q['storms']):
                        r = c.call(ref, 'alone%d' % k, [s], q['lim'], timeout=150)
                        w = winds(os.path.join(d, 'alone%d' % k))
                        if r[0] == 'ok' and r[1] is None and len(w) == 1:
                            refs['alone'][k] = list(w.values())[0]

            def real():
                ini = configure(os.path.join(d, 'real'), q, q['storms'], q['lim'])
                if q['ready']:
                    for s in ('tracks', 'windfield', 'plots', 'process'):
                        os.makedirs(os.path.join(d, 'real', 'output', s))
                maps = []
                failed = execute(ini, maps)
                if q['again'] and failed is None and q['impact'] == 'no' and not q['plot']:
                    failed = execute(ini, maps)
                ids, ev, pts = observe(os.path.join(d, 'real'), q, ini, maps, failed, refs)
                return ids, ev, failed, pts
            r = c.call(real, timeout=200)
        finally:
            shutil.rmtree(d)
        return q, r, len(refs['other']) + len(refs['alone'])

    traces, inter = [], []
    stats = {'runs': 0, 'storms': 0, 'wind_fields': 0, 'time_series': 0, 'impact_calls': 0, 'maps': 0, 'reference_fields': 0,
             'failing_runs': 0}
    for q, r, nref in c.pmap(job, seeds, timeout=600):
        ns = len(q['storms'])
        ids = [(k, q['no']) if q['kind'] == 'nc' else (k + 1, ns) for k in range(ns)]
        lim = q['lim'] or {'xMin': 0, 'xMax': 0, 'yMin': 0, 'yMax': 0}
        ev = r[1][1] if r[0] == 'ok' else [{'t': 'stopped'}]
        ngust = sum(e['t'] == 'gust' for e in ev)
        cfg = {'storms': [{'t0': s[0][0], 't1': s[-1][0], 'single': len(s) == 1, 'id': list(i)} for s, i in zip(q['storms'], ids)],
               'region': dict(given=q['lim'] is not None, x0=h(lim['xMin']), x1=h(lim['xMax']), y0=h(lim['yMin']), y1=h(lim['yMax'])),
               'margin': h(q['margin']), 'step': h(q['res']), 'stations': [{'x': h(x), 'y': h(y)} for x, y in q['stations']],
               'impact': q['impact'], 'plot': q['plot'], 'series': q['series'],
               'good': not q['bad'] and not (q['impact'] == 'fails' and ngust > 0) and not (q['plot'] and ngust == 0)}
        traces.append({'cfg': cfg, 'ev': ev, 'about': dict(q, error=str(r[1][2] if r[0] == 'ok' else r[1])[:900])})
        if r[0] == 'ok' and r[1][3] is not None:
            cases = [([x + (None,) for x in s], False) for s in q['storms']]
            inter.append({'cfg': interp.cfg(cases, 'akima', 5, [list(i) for i in ids]), 'ev': r[1][3], 'about': dict(q)})
        stats['runs'] += 1
        stats['storms'] += ns
        stats['wind_fields'] += ngust
        stats['time_series'] += sum(e['t'] == 'series' and e['has'] for e in ev)
        stats['impact_calls'] += sum(e['t'] == 'impact' for e in ev)
        stats['maps'] += sum(e['t'] == 'map' for e in ev)
        stats['reference_fields'] += nref
        stats['failing_runs'] += any(e['t'] == 'end' and not e['ok'] for e in ev)
    n = len(traces)
    ctrl = []

    def put(t, at, new):
        ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:at] + new + t['ev'][at + 1:]})
    for t in c.rng.sample(traces, min(30, n)):
        if not t['cfg']['good']:
            continue
        for i, e in enumerate(t['ev']):
            if e['t'] == 'track':
                put(t, i, [dict(e, last=e['last'] - 5)])
                put(t, i, [dict(e, n=e['n'] + 1)])
            elif e['t'] == 'gust':
                put(t, i, [dict(e, x0=e['x0'] + t['cfg']['step'] + 101)])
                put(t, i, [dict(e, alone=40)])
                b = [x for x in t['ev'] if x['t'] == 'track' and x['k'] == e['k']]
                if b and not t['cfg']['region']['given']:
                    put(t, i, [])
            elif e['t'] == 'series':
                put(t, i, [dict(e, top=e['top'] + 5)])
            elif e['t'] in ('impact', 'map'):
                put(t, i, [])
            elif e['t'] == 'end':
                put(t, i, [dict(e, ok=False)])
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Scenario', allt, expect_reject=idx if not any(t['ev'][-1]['t'] == 'stopped' for t in traces) else ())
    c.judge('Scenario', allt, res, idx)
    good = [t for t in inter if len(t['ev']) > 3]
    bent = []
    for t in c.rng.sample(good, min(15, len(good))):
        i = c.rng.choice([i for i, e in enumerate(t['ev']) if e['t'] == 'point'])
        for key in ('age', 'r', 'e'):
            bent.append({'cfg': t['cfg'], 'ev': t['ev'][:i] + [dict(t['ev'][i], **{key: t['ev'][i][key] + 150})] + t['ev'][i + 1:]})
    alli = inter + bent
    idx = range(len(inter), len(alli))
    res = c.trace_check('InterpTrack', alli, expect_reject=idx)
    c.judge('InterpTrack', alli, res, idx)
    stats['track_points'] = sum(len(t['ev']) for t in inter)
    c.sample({'about': {k: v for k, v in traces[0]['about'].items()}, 'events': len(traces[0]['ev'])})
    c.finish(**stats)


vf.main(run)
