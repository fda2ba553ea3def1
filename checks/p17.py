"""P17: track files."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import random
import shutil
from datetime import datetime, timedelta

SCALE = {'TimeElapsed': 1e3, 'Longitude': 1e6, 'Latitude': 1e6, 'Speed': 1e6, 'Bearing': 1e6,
         'CentralPressure': 1e5, 'EnvPressure': 1e5, 'rMax': 1e6}
UNITS = ['hours since 1900-01-01 00:00', 'days since 1970-01-01', 'minutes since 1990-06-01 00:00',
         'hours since 2000-01-01 06:00', 'seconds since 1950-01-01 00:00']
CALS = ['standard', 'julian', 'gregorian', 'proleptic_gregorian']
EPOCH = datetime(1900, 1, 1)


def num(v):
    try:
        return int(v)
    except (TypeError, ValueError):
        return -1


def flat(track, tid=True):
    """A track as integers."""
    import numpy as np
    out = []
    for r in track.data:
        d = r['Datetime']
        if isinstance(d, datetime):
            s = d - EPOCH
            when = [s.days, s.seconds * (1 if d.microsecond == 0 else -1)]
        else:
            when = [-1, -1]
        out.append([int(r['CycloneNumber'])] + when +
                   [int(round(float(r[k]) * SCALE[k])) if np.isfinite(r[k]) else -999999999 for k in SCALE])
    i = track.trackId
    return {'id': [num(x) for x in i] if isinstance(i, (tuple, list)) else [], 'rec': out}


def lows(tracks):
    """The lowest pressure each track states."""
    return [int(round(float(t.trackMinPressure) * SCALE['CentralPressure'])) if t.trackMinPressure is not None else -1
            for t in tracks]


def where(rng, tracks):
    """A box, sometimes with an edge or corner at the first point of a track, and which tracks start in it."""
    x, y = sorted(rng.uniform(0, 360) for _ in 'ab'), sorted(rng.uniform(-40, 40) for _ in 'ab')
    t = rng.choice(tracks)
    if rng.random() < .5:
        x[rng.randrange(2)] = float(t.Longitude[0])
    if rng.random() < .5:
        y[rng.randrange(2)] = float(t.Latitude[0])
    x.sort()
    y.sort()
    box = {'xMin': x[0], 'xMax': x[1], 'yMin': y[0], 'yMax': y[1]}
    return {'t': 'where', 'box': [int(round(v * 1e6)) for v in x + y], 'got': [bool(t.inRegion(box)) for t in tracks],
            'tracks': [flat(t) for t in tracks]}


def make(rng, n, sim, short=False):
    import numpy as np
    from Utilities.track import Track, TCRM_COLS, TCRM_FMTS
    tracks = []
    for k in range(n):
        m = rng.choice([1, 1, 2, 3, 5, 9, 30]) if rng.random() < .95 else 0
        if short:
            m = rng.choice([0, 1, 1, 1, 1, 2])
        a = np.zeros(m, dtype=np.dtype({'names': TCRM_COLS, 'formats': TCRM_FMTS}))
        t0 = datetime(rng.randint(1901, 2100), 1, 1) + timedelta(seconds=rng.choice([1, 60, 3600]) * rng.randint(0, 8000))
        step = rng.choice([3600., 360., 21600., 600., 1., 5400.])
        for i in range(m):
            a['CycloneNumber'][i] = k + 1
            a['Datetime'][i] = t0 + timedelta(seconds=step * i)
            a['TimeElapsed'][i] = step * i / 3600.
            a['Longitude'][i] = rng.uniform(0, 360)
            a['Latitude'][i] = rng.choice([rng.uniform(-40, 40), 0., -20.])
            a['Speed'][i] = rng.uniform(0, 60)
            a['Bearing'][i] = rng.choice([rng.uniform(0, 360), 0., 359.9999])
            a['CentralPressure'][i] = rng.uniform(880, 1015)
            a['EnvPressure'][i] = rng.uniform(1000, 1020)
            a['rMax'][i] = rng.uniform(5, 120)
        t = Track(a)
        t.trackId = (k + 1, sim)
        tracks.append(t)
    return tracks


def history(d, seed, length):
    """One process: makes, saves and reads track sets; returns the events."""
    from netCDF4 import Dataset
    from Utilities import track as T
    rng = random.Random(seed)
    ns, nf = 3, 3
    mem = {s: [] for s in range(1, ns + 1)}
    ev = []
    names = {f: os.path.join(d, 'tracks.%05d.nc' % f) for f in range(1, nf + 1)}
    tags = {}
    # some begin with a large set that is saved and read again
    large = rng.random() < .08
    for i in range(length):
        k = rng.choice(['make', 'save', 'save', 'load', 'load', 'loadall', 'attr', 'where'])
        s, f = rng.randint(1, ns), rng.randint(1, nf)
        if large and i < 4:
            k, s, f = ['make', 'save', 'loadall', 'load'][i], 1, 1
        if k == 'make':
            n = rng.choice([0, 1, 2, 3, 6, 12] if rng.random() < .2 else [0, 1, 2, 3, 5])
            if large and i == 0:
                n = rng.choice([101, 110, 130])
            mem[s] = make(rng, n, rng.randint(0, 999), short=n > 100)
            ev.append({'t': 'make', 's': s, 'tracks': [flat(t) for t in mem[s]]})
        elif k == 'save':
            kw = {}
            if rng.random() < .5:
                kw['calendar'] = rng.choice(CALS)
            if rng.random() < .3:
                kw['timeunits'] = rng.choice(UNITS)
            tag = None
            if rng.random() < .4:
                tag = 'tag%d' % len(ev)
                kw['attributes'] = {tag: 'x'}
            try:
                T.ncSaveTracks(names[f], mem[s], **kw)
                ok = True
            except Exception:
                ok = False
            if ok:
                tags[f] = tag
            ev.append({'t': 'save', 's': s, 'f': f, 'ok': ok, 'after': [flat(t) for t in mem[s]],
                       'how': sorted('%s=%s' % x for x in kw.items())})
        elif k == 'load':
            try:
                if rng.random() < .5:
                    got = T.ncReadTrackData(names[f])
                else:
                    got = T.loadTracks(names[f])
                ok = True
            except Exception:
                got, ok = [], False
            if ok:
                mem[s] = got
            ev.append({'t': 'load', 's': s, 'f': f, 'ok': ok, 'got': [flat(t) for t in got], 'lows': lows(got)})
        elif k == 'loadall':
            try:
                if rng.random() < .5:
                    got = list(T.loadTracksFromPath(d))
                else:
                    got = list(T.loadTracksFromFiles([names[q] for q in sorted(names) if os.path.exists(names[q])]))
                ok = True
            except Exception:
                got, ok = [], False
            ev.append({'t': 'loadall', 'ok': ok, 'got': [flat(t) for t in got], 'lows': lows(got)})
        elif k == 'where':
            ts = [t for t in mem[s] if len(t.data)]
            if ts:
                ev.append(where(rng, ts))
        elif os.path.exists(names[f]):
            nc = Dataset(names[f])
            have = [a for a in nc.ncattrs() if a.startswith('tag')]
            nc.close()
            ev.append({'t': 'attr', 'f': f, 'leak': have != ([tags[f]] if tags.get(f) else [])})
    return ev


def single(d, seed):
    """Reading files in which each column is a variable of its own, and
    comma-separated track files."""
    import numpy as np
    from netCDF4 import Dataset
    from Utilities import track as T
    rng = random.Random(seed)
    ev = []
    ts = [t for t in make(rng, 3, 7) if len(t.data)]
    for n, t in enumerate(ts[:2], 1):
        p = os.path.join(d, 'tracks.%05d.nc' % n)
        nc = Dataset(p, 'w')
        nc.createDimension('time', len(t.data))
        units = rng.choice(UNITS)
        ref = datetime.strptime(units.split('since ')[1].ljust(16, ' ').replace('      ', ' 00:00'), '%Y-%m-%d %H:%M')
        div = {'hours': 3600., 'days': 86400., 'minutes': 60., 'seconds': 1.}[units.split()[0]]
        for c in t.data.dtype.names:
            v = nc.createVariable(c, 'i4' if c == 'CycloneNumber' else 'f8', ('time',))
            v[:] = [(x - ref).total_seconds() / div for x in t.data[c]] if c == 'Datetime' else t.data[c]
        nc.time_units = units
        nc.calendar = 'proleptic_gregorian'
        nc.trackId = repr(t.trackId)
        nc.close()
        ev += [{'t': 'make', 's': n, 'tracks': [flat(t)]},
               {'t': 'save', 's': n, 'f': n, 'ok': True, 'after': [flat(t)], 'how': ['written by hand']}]
        try:
            got, ok = T.loadTracks(p), True
        except Exception:
            got, ok = [], False
        ev.append({'t': 'load', 's': n, 'f': n, 'ok': ok, 'got': [flat(g) for g in got], 'lows': lows(got)})
    # comma-separated: units km/h, hPa and compass bearing on file, m/s, Pa and direction in memory
    csv = os.path.join(d, 'x.csv')
    ts = [t for t in make(rng, 4, 7) if len(t.data)]
    for n, t in enumerate(ts, 1):
        t.data['CycloneNumber'] = n
        t.trackId = (n, 0)
    with open(csv, 'w') as fh:
        fh.write('%CycloneNumber,Datetime,...\n')
        for t in ts:
            for r in t.data:
                fh.write('%d,%s,%r,%r,%r,%r,%r,%r,%r,%r\n' % (
                    r['CycloneNumber'], r['Datetime'].strftime('%Y-%m-%d %H:%M:%S'), float(r['TimeElapsed']),
                    float(r['Longitude']), float(r['Latitude']), float(r['Speed']), float(r['Bearing']),
                    float(r['CentralPressure']), float(r['EnvPressure']), float(r['rMax'])))
    if not ts:
        return ev
    ev += [{'t': 'make', 's': 3, 'tracks': [flat(t) for t in ts]},
           {'t': 'save', 's': 3, 'f': 3, 'ok': True, 'after': [flat(t) for t in ts], 'how': ['csv']}]
    try:
        got = []
        for n, a in enumerate(T.readMultipleTrackData(csv), 1):
            a = np.atleast_1d(a).copy()
            a['Speed'] = a['Speed'] * 3.6
            a['CentralPressure'] /= 100.
            a['EnvPressure'] /= 100.
            th = np.degrees(a['Bearing'])
            want = [r['Bearing'] for r in ts[n - 1].data]
            # a direction is the same whatever multiple of a full turn is added
            a['Bearing'] = [b if abs(((90. - x) - b + 180.) % 360. - 180.) < 1e-6 else 90. - x
                            for x, b in zip(th, want)] if len(th) == len(want) else th
            near = ts[n - 1].data['Speed'] if len(th) == len(want) else a['Speed']
            a['Speed'] = np.where(abs(a['Speed'] - near) < 2e-6 * abs(near) + 1e-9, near, a['Speed'])
            t = T.Track(a)
            t.trackId = (n, 0)
            got.append(t)
        ok = True
    except Exception as e:
        got, ok = [], False
    ev.append({'t': 'load', 's': 3, 'f': 3, 'ok': ok, 'got': [flat(g) for g in got],
               'lows': [min(r[9 - 1] for r in flat(g)['rec']) for g in got]})
    return ev


def run():
    c = vf.Check('P17')
    c.source(exts=('Utilities._maputils',))
    tc.quiet()
    c.model_check('TrackFileMC', min_states=500)
    fakempi.no_mpi()
    import Utilities.track
    N, M = (220, 40) if c.quick else (4000, 600)
    jobs = [(i, c.rng.getrandbits(32)) for i in range(N + M)]

    def play(job):
        i, seed = job
        d = c.dir('case')
        if i < N:
            r = c.call(history, d, seed, 4 + seed % 15, timeout=120)
        else:
            r = c.call(single, d, seed, timeout=120)
        shutil.rmtree(d)
        if r[0] != 'ok':
            return {'cfg': {'n': 3, 'm': 3}, 'ev': [{'t': 'ended ' + r[0], 'what': str(r[1])[-600:]}]}
        return {'cfg': {'n': 3, 'm': 3}, 'ev': r[1]}
    traces = c.pmap(play, jobs)
    stats = {}
    for t in traces:
        for e in t['ev']:
            stats[e['t']] = stats.get(e['t'], 0) + 1
            if e['t'] in ('load', 'loadall'):
                stats['tracks_read'] = stats.get('tracks_read', 0) + len(e['got'])
                stats['records_read'] = stats.get('records_read', 0) + sum(len(x['rec']) for x in e['got'])
    n = len(traces)
    ctrl = []
    for t in traces:
        ks = [i for i, e in enumerate(t['ev']) if e['t'] == 'load' and e['got'] and e['got'][-1]['rec']]
        if ks and len(ctrl) < 60:
            i = c.rng.choice(ks)
            for how in range(4):
                ev = list(t['ev'])
                got = [{'id': list(x['id']), 'rec': [list(r) for r in x['rec']]} for x in ev[i]['got']]
                if how == 0:
                    got[-1]['rec'][-1][c.rng.randrange(11)] += 1
                elif how == 1:
                    got = got[1:]
                elif how == 2:
                    got[0]['id'] = got[0]['id'] + [1]
                ev[i] = dict(ev[i], got=got)
                if how == 3:
                    ev[i] = dict(t['ev'][i], lows=[v + 1 for v in t['ev'][i]['lows']])
                ctrl.append({'cfg': t['cfg'], 'ev': ev})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('TrackFile', allt, expect_reject=idx)
    c.judge('TrackFile', allt, res, idx)
    c.sample([{k: v for k, v in e.items() if k not in ('tracks', 'after', 'got')} for e in traces[0]['ev']])
    c.finish(histories=n, operations=stats)


vf.main(run)
