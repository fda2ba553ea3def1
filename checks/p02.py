"""P02: the event database holds every record exactly once."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import sched
import tc
import random
import shutil
import sqlite3
from datetime import datetime, timedelta
import numpy as np

KM_PER_DEG = 111.1251
TABLES = {
    'locations': ('tblLocations', 'locId, locLon, locLat'),
    'events': ('tblEvents', 'eventId, eventFile, eventTrackFile, eventMaxWind, eventMinPressure'),
    'wind': ('tblWindSpeed', 'locId, eventId, wspd, umax, vmax, pmin'),
    'hazard': ('tblHazard', 'locId, returnPeriod, wspd, wspdUpper, wspdLower, loc, scale, shape'),
    'passage': ('tblTracks', 'locId, eventId, distClosest')}


def make_case(c, rng, F):
    d = c.dir('db')
    out = os.path.join(d, 'output')
    for s in ('windfield', 'tracks', 'hazard', 'process'):
        os.makedirs(os.path.join(out, s))
    nx, ny = rng.randint(2, 6), rng.randint(2, 5)
    x0, y0 = 1100 + rng.choice([0, 5]), -250 + rng.choice([0, 5])
    step = rng.choice([5, 10])
    glon = [x0 + step * i for i in range(nx)]
    glat = [y0 + step * j for j in range(ny)]
    dom = [glon[0], glon[-1], glat[0], glat[-1]]
    if rng.random() < .4:          # the database's own region may differ from the grid
        dom = [dom[0] - rng.randint(0, 6), dom[1] + rng.randint(0, 6),
               dom[2] - rng.randint(0, 6), dom[3] + rng.randint(0, 6)]
    locs, used = [], set()
    for k in range(rng.choice([1, 2, 3, 5])):
        kind = rng.random()
        x = rng.randint(dom[0] - 8, dom[1] + 8)
        y = rng.randint(dom[2] - 8, dom[3] + 8)
        if kind < .3:
            x = rng.choice(dom[:2])
        if kind < .2:
            y = rng.choice(dom[2:])
        if (x, y) not in used:
            used.add((x, y))
            locs.append({'id': len(locs) * 3 + rng.randint(1, 3), 'x': x, 'y': y})
    rng.shuffle(locs)
    codes = iter(rng.sample(range(100, 900000), 40000))
    grid = lambda: [[next(codes) for _ in glon] for _ in glat]
    files, sims = [], set()
    while len(files) < F:
        sim = (rng.choice([0, 0, 1, 12, 99, 100, 112]),
               rng.choice([rng.randint(0, 30), rng.randint(0, 999)]))
        if sim in sims:
            continue
        sims.add(sim)
        k = len(files) + 1
        f = {'id': 100000 + sim[0] * 1000 + sim[1], 'file': k, 'track': 500 + k,
             'maxwind': next(codes), 'minpres': next(codes),
             'v': grid(), 'ua': grid(), 'va': grid(), 'p': grid()}
        if rng.random() < .5:      # cells the storm does not reach
            calm = rng.choice([.3, .7, 1.])
            for j in range(ny):
                for i in range(nx):
                    if rng.random() < calm:
                        f['v'][j][i] = f['ua'][j][i] = f['va'][j][i] = 0
        f['_name'] = 'gust.%03d-%05d.nc' % sim
        f['_track'] = 'tracks.%05d-%d.nc' % (sim[1], k)
        files.append(f)
        from netCDF4 import Dataset
        p = os.path.join(out, 'windfield', f['_name'])
        tc.write_gust(p, np.array(glon) / 10., np.array(glat) / 10., np.array(f['v'], float),
                      {'ua': np.array(f['ua'], float), 'va': np.array(f['va'], float),
                       'slp': np.array(f['p'], float)})
        nc = Dataset(p, 'a')
        nc.track_file = '/some/where/' + f['_track']
        nc.track_file_date = '2012-03-04 05:06:07'
        nc.tcrm_version = 'v1'
        nc.variables['vmax'].actual_range = np.array([0., f['maxwind']])
        nc.variables['slp'].actual_range = np.array([f['minpres'], 2e6])
        nc.close()
    if rng.random() < .3:          # plots and recorded time steps beside the gust files
        tc.write_companions(os.path.join(out, 'windfield'), np.array(glon) / 10.,
                            np.array(glat) / 10., sorted(sims))
    years = sorted(rng.sample([2, 5, 10, 20, 50, 100, 250, 500], rng.randint(1, 3)))
    if rng.random() < .3:
        years = years[::-1]
    case = {'dom': dom, 'locs': locs, 'glon': glon, 'glat': glat, 'files': files, 'years': years,
            'hw': [grid() for _ in years], 'hu': [grid() for _ in years],
            'hl': [grid() for _ in years], 'loc': grid(), 'scale': grid(), 'shape': grid()}
    nc = Dataset_(os.path.join(out, 'hazard', 'hazard.nc'))
    nc.createDimension('ari', len(years))
    nc.createDimension('lat', ny)
    nc.createDimension('lon', nx)
    for n, dims, v in (('ari', ('ari',), years), ('lat', ('lat',), np.array(glat) / 10.),
                       ('lon', ('lon',), np.array(glon) / 10.),
                       ('wspd', ('ari', 'lat', 'lon'), case['hw']),
                       ('wspdupper', ('ari', 'lat', 'lon'), case['hu']),
                       ('wspdlower', ('ari', 'lat', 'lon'), case['hl']),
                       ('loc', ('lat', 'lon'), case['loc']),
                       ('scale', ('lat', 'lon'), case['scale']),
                       ('shp', ('lat', 'lon'), case['shape'])):
        x = nc.createVariable(n, 'f8', dims)
        x[:] = np.array(v, float)
    nc.tcrm_version = 'v1'
    nc.close()
    # tracks, written in the model's own format
    case['tracks'], tfiles = [], []
    tid = 0
    for s in range(rng.choice([0, 1, 2, 4, 6])):
        ts = []
        for k in range(rng.randint(1, 3)):
            tid += 1
            npts = rng.choice([1, 2, 3, 5])
            if rng.random() < .2:
                npts = 0
            x, y = rng.randint(dom[0] - 20, dom[1] + 20), rng.randint(dom[2] - 20, dom[3] + 20)
            pts = []
            for q in range(npts):
                pts.append([x, y])
                if rng.random() < .5:
                    x += rng.choice([-1, 1]) * rng.randint(1, 25)
                else:
                    y += rng.choice([-1, 1]) * rng.randint(1, 25)
            ts.append({'id': 200000 + s * 1000 + k, 'pts': pts, '_id': (s, k)})
        case['tracks'] += ts
        tfiles.append((os.path.join(out, 'tracks', 'tracks.%05d.nc' % s), ts))
    case['_tfiles'] = tfiles
    db = sqlite3.connect(os.path.join(out, 'locations.db'))
    db.execute('CREATE TABLE tblLocations (locId integer PRIMARY KEY, locCode text, locName text, '
               'locType text, locLon real, locLat real, locElev real, locCountry text, '
               'locSource text, Comments text, dtCreated timestamp)')
    for l in locs:
        db.execute('INSERT INTO tblLocations VALUES (?,?,?,?,?,?,?,?,?,?,?)',
                   (l['id'], 'c%d' % l['id'], 'Name %d' % l['id'], 'AWS', l['x'] / 10.,
                    l['y'] / 10., 1., 'AU', 'src', '', '2012-01-01 00:00:00'))
    db.commit()
    db.close()
    case['_ini'] = tc.write_ini(os.path.join(d, 'c.ini'), {
        'Region': {'gridLimit': tc.limits(dom[0] / 10., dom[2] / 10., dom[1] / 10., dom[3] / 10.)},
        'Process': {'DatFile': os.path.join(out, 'process', 'files.dat'),
                    'ExcludePastProcessed': 'False'},
        'Input': {'LocationFile': 'none'},
        'Output': {'Path': out}})
    case['_out'] = out
    return case


def Dataset_(p):
    from netCDF4 import Dataset
    return Dataset(p, 'w', format='NETCDF4')


def write_tracks(case):
    from Utilities.track import Track, ncSaveTracks
    names = ('CycloneNumber', 'Datetime', 'TimeElapsed', 'Longitude', 'Latitude', 'Speed',
             'Bearing', 'CentralPressure', 'EnvPressure', 'rMax')
    fmts = ('i', 'object', 'f', 'f8', 'f8', 'f8', 'f8', 'f8', 'f8', 'f8')
    for path, ts in case['_tfiles']:
        tracks = []
        for t in ts:
            a = np.zeros(len(t['pts']), dtype={'names': names, 'formats': fmts})
            for q, (x, y) in enumerate(t['pts']):
                a[q] = (1, datetime(2001, 2, 3) + timedelta(hours=q), q, x / 10., y / 10.,
                        10., 0., 990., 1010., 30.)
            tr = Track(a)
            tr.trackId = t['_id']
            tracks.append(tr)
        ncSaveTracks(path, tracks, attributes={})
        # tracks without positions, as an earlier version of the model may have left them
        if any(not t['pts'] for t in ts) and any(t['pts'] for t in ts):
            groups(path, ts, names, fmts)
    return True


def groups(path, ts, names, fmts):
    from netCDF4 import Dataset, date2num
    nc = Dataset(path, 'w', format='NETCDF4')
    top = nc.createGroup('tracks')
    dt = np.dtype(list(zip(names, ['f8' if f == 'object' else f + '4' if len(f) == 1 else f
                                   for f in fmts])))
    for k, t in enumerate(ts):
        g = top.createGroup('tracks-%04d' % k)
        td = g.createCompoundType(dt, 'track_dtype')
        g.createDimension('time', None)
        v = g.createVariable('time', 'f8', ('time',))
        v.units, v.calendar = 'hours since 1900-01-01 00:00', 'standard'
        tv = g.createVariable('track', td, ('time',))
        tv.trackId = str(t['_id'])
        a = np.zeros(len(t['pts']), dtype=dt)
        for q, (x, y) in enumerate(t['pts']):
            a[q] = (1, date2num(datetime(2001, 2, 3) + timedelta(hours=q), v.units, v.calendar),
                    q, x / 10., y / 10., 10., 0., 990., 1010., 30.)
        if len(a):
            v[:] = a['Datetime']
            tv[:] = a
    nc.close()


def body(case):
    def target(r, n):
        tc.quiet()
        import Utilities.parallel as par
        par.attemptParallel()
        import database
        database.run(case['_ini'])
        return True
    return target


def dump(case):
    """The tables as sequences of integer rows, or None."""
    p = os.path.join(case['_out'], 'hazard.db')
    if not os.path.exists(p):
        return None
    db = sqlite3.connect(p)
    names = {}
    for f in case['files']:
        names[f['_name']] = f['file']
        names[f['_track']] = f['track']

    def num(x, scale=1):
        try:
            v = float(x) * scale
            return int(round(v)) if abs(v - round(v)) < 1e-6 * max(1, abs(v)) else -1
        except (TypeError, ValueError):
            return -1

    def evid(s, base):
        try:
            a, b = s.split('-')
            return base + int(a) * 1000 + int(b) if (len(a), len(b)) == (3, 5) else -1
        except (AttributeError, ValueError):
            return -1

    def name(s):
        if isinstance(s, bytes):
            s = s.decode('utf-8', 'replace')
        return names.get(s, -1)
    out = {}
    try:
        for t, (tbl, cols) in TABLES.items():
            rows = db.execute('SELECT %s FROM %s' % (cols, tbl)).fetchall()
            if t == 'locations':
                rows = [[num(r[0]), num(r[1], 10), num(r[2], 10)] for r in rows]
            elif t == 'events':
                rows = [[evid(r[0], 100000), name(r[1]), name(r[2]), num(r[3]), num(r[4])]
                        for r in rows]
            elif t == 'wind':
                rows = [[num(r[0]), evid(r[1], 100000)] + [num(x) for x in r[2:]] for r in rows]
            elif t == 'hazard':
                rows = [[num(x) for x in r] for r in rows]
            else:
                rows = [[num(r[0]), evid(r[1], 200000),
                         num((float(r[2]) / KM_PER_DEG * 10) ** 2) if r[2] is not None else -1]
                        for r in rows]
            out[t] = rows
    except sqlite3.Error as e:
        return None
    finally:
        db.close()
    return out


def cfgof(case, n, builds):
    cfg = {k: case[k] for k in ('dom', 'locs', 'glon', 'glat', 'years', 'hw', 'hu', 'hl',
                                'loc', 'scale', 'shape')}
    cfg['files'] = [{k: v for k, v in f.items() if k[0] != '_'} for f in case['files']]
    cfg['tracks'] = [{k: v for k, v in t.items() if k[0] != '_'} for t in case['tracks']]
    cfg['n'], cfg['builds'] = n, builds
    return cfg


def run():
    c = vf.Check('P02')
    c.source()
    tc.quiet()
    import database                             # noqa: F401 (imported once, before forking)
    import Utilities.track                      # noqa: F401
    c.model_check('EventDb', min_states=500)
    gen = sched.farm(c, 400 if c.quick else 3000)[:110 if c.quick else 1500]

    def one(job):
        gi, g = job
        rng = random.Random('%d/%d' % (c.seed, gi))
        F, n, sync = g['cfg']['T'], g['cfg']['n'], g['cfg']['sync']
        case = make_case(c, rng, F)
        r = c.call(write_tracks, case)
        if r[0] != 'ok':
            raise vf.CheckError('cannot write the input tracks: %s' % (r,))
        ev, problem = [], None
        builds = 2 if rng.random() < .3 else 1
        for k in range(builds):
            if n == 1 and rng.random() < .7:
                def alone():
                    fakempi.no_mpi()
                    fakempi.shuffle_listing(c.seed + gi + k)
                    return body(case)(0, 1)
                r = c.call(alone)
                ev.append({'t': 'end', 'r': 0, 'ok': r[0] == 'ok'})
                problem = None if r[0] == 'ok' else r[1]
            else:
                R = fakempi.run(n, body(case), sched.picker(c, g, gi + k), sync=sync,
                                listing=c.seed + gi + k, rngseed=c.seed + gi)
                ev += sched.ending(R)
                problem = R.problem()
            tabs = dump(case)
            if tabs is not None:
                ev += [{'t': 'table', 'name': t, 'rows': rows} for t, rows in tabs.items()]
            ev.append({'t': 'built'})
        about = {'processes': n, 'files': F, 'rendezvous': sync, 'locations': len(case['locs']),
                 'tracks': len(case['tracks']), 'builds': builds, 'problem': problem}
        shutil.rmtree(os.path.dirname(case['_out']))
        return {'cfg': cfgof(case, n, builds), 'ev': ev, 'about': about}
    traces = c.pmap(one, list(enumerate(gen)), timeout=700)
    stats = dict(single_process=0, rendezvous=0, more_processes_than_files=0, rebuilds=0,
                 no_files=0)
    for t in traces:
        a = t['about']
        stats['single_process'] += a['processes'] == 1
        stats['rendezvous'] += bool(a['rendezvous'])
        stats['more_processes_than_files'] += a['processes'] - 1 > a['files']
        stats['rebuilds'] += a['builds'] > 1
        stats['no_files'] += a['files'] == 0
        c.sample(a)
    nreal = len(traces)
    ctrl = []
    for t in traces[:6]:
        for name in TABLES:
            for kind in range(3):
                ev = []
                hit = False
                for e in t['ev']:
                    if not hit and e['t'] == 'table' and e['name'] == name and e['rows']:
                        rows = [list(r) for r in e['rows']]
                        if kind == 0:
                            rows = rows[1:]
                        elif kind == 1:
                            rows.append(rows[0])
                        else:
                            rows[0][-1] += 1
                        e = dict(e, rows=rows)
                        hit = True
                    ev.append(e)
                if hit:
                    ctrl.append({'cfg': t['cfg'], 'ev': ev})
        ctrl.append({'cfg': t['cfg'], 'ev': [e for e in t['ev'] if e['t'] != 'end' or e['r'] != 0]})
    allt = traces + ctrl
    idx = range(nreal, len(allt))
    res = c.trace_check('EventDb', allt, expect_reject=idx)
    c.judge('EventDb', allt, res, idx)
    c.assumptions += ['location identifiers, file names and grid values are distinct, so a row '
                      'taken from the wrong place is recognisable']
    c.finish(database_builds=sum(t['about']['builds'] for t in traces),
             rows_checked=sum(len(e['rows']) for t in traces for e in t['ev']
                              if e['t'] == 'table'), **stats)


vf.main(run)
