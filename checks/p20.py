"""P20: interpolation of tracks."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import trackenv
from interp import BASE, MISSING, minutes, points, begin, events, cfg
import random
import shutil
import traceback
from datetime import datetime, timedelta
import numpy as np

DELTAS = [5, 10, 15, 20, 30, 60, 90, 120, 180, 360]
KINDS = ['linear', 'akima', None]


def random_case(rng, single=False, wind=False):
    """records: (minutes since 1900, lon, lat, pc, pe, rmax, wind or None)"""
    n = 1 if single else rng.choice([2, 2, 3, 3, 4, 4, 5, 6, 9, 14])
    straight = rng.random() < .3
    gaps = [1, 5, 20, 60, 60, 180, 180, 360, 360, 720] if rng.random() < .6 else [rng.choice([30, 60, 180, 360])]
    t = rng.randint(30 * 365 * 24, 115 * 365 * 24) * 60 + rng.choice([0, 0, 0, 30, 37])
    if rng.random() < .15:      # across the end of a year or a leap day
        y = rng.choice([1999, 2000, 2003, 2004])
        t = minutes(datetime(y, *rng.choice([(2, 28), (12, 31)]), 21, 0))
    x, y = rng.uniform(5., 340.), rng.uniform(-40., 30.)
    vx, vy = rng.uniform(-.3, .3), rng.uniform(-.3, .3)
    pe, rm = rng.uniform(1000., 1015.), rng.uniform(10., 80.)
    out = []
    for i in range(n):
        out.append((t, x if straight else round(x, 4), y if straight else round(y, 4), round(pe - rng.uniform(3., 140.), 2), round(pe, 2), round(rm, 2)))
        g = rng.choice(gaps)
        if not straight:
            vx, vy = rng.uniform(-.4, .4), rng.uniform(-.4, .4)
        t += g
        x += vx * g / 60.
        y += vy * g / 60.
        pe += rng.uniform(-2, 2)
        rm = max(5, rm + rng.uniform(-8, 8))
    if rng.random() < .35 and not single:
        for i in range(n):
            if rng.random() < rng.choice([.2, .5, .9]):
                out[i] = out[i][:3] + (MISSING,) + out[i][4:]
    return [r + (round(rng.uniform(10., 90.), 2) if wind else None,) for r in out], straight


def track(recs, ident, rng):
    """A Track object holding the records."""
    from Utilities.track import Track
    names = ['Datetime', 'Longitude', 'Latitude', 'Speed', 'Bearing', 'CentralPressure', 'EnvPressure', 'rMax',
             'CycloneNumber', 'TimeElapsed']
    fmt = ['O'] + ['f8'] * 7 + ['i4', 'f8']
    wind = recs[0][6] is not None
    when = [BASE + timedelta(minutes=r[0]) for r in recs]
    if wind:
        names.append('WindSpeed')
        fmt.append('f8')
    d = np.zeros(len(recs), dtype={'names': names, 'formats': fmt})
    for i, r in enumerate(recs):
        d['Datetime'][i] = when[i]
        d['Longitude'][i], d['Latitude'][i], d['CentralPressure'][i] = r[1:4]
        d['EnvPressure'][i], d['rMax'][i] = r[4:6]
        d['CycloneNumber'][i] = ident[0]
        d['TimeElapsed'][i] = (r[0] - recs[0][0]) / 60.
        if wind:
            d['WindSpeed'][i] = r[6]
    t = Track(d)
    t.trackId = ident
    t.trackfile = 'x'
    return t


def direct(seed):
    """interpolate() called for one track."""
    rng = random.Random(seed)
    from Evaluate import interpolateTracks as I
    case = random_case(rng, wind=rng.random() < .5)
    kind, delta = rng.choice(KINDS), rng.choice(DELTAS)
    if case[0][-1][0] - case[0][0][0] > 200 * delta:
        delta = 60
    ident = (rng.randint(0, 40), rng.randint(0, 9))
    t = track(case[0], ident, rng)
    got = {'cfg': cfg([case], kind, delta, [list(ident)]), 'case': case[0], 'kind': kind, 'delta': delta}
    try:
        r = I.interpolate(t, delta / 60., kind)
        got['ev'] = [begin(1, r)] + points(r.data)
    except Exception:
        got['error'] = traceback.format_exc()[-900:]
        got['ev'] = [{'t': 'stopped'}]
    return got


def files(seed, d):
    """parseTracks of a track file, in memory and saved."""
    rng = random.Random(seed)
    from Evaluate import interpolateTracks as I
    from Utilities.track import ncReadTrackData
    os.makedirs(d)
    cases = [random_case(rng, single=rng.random() < .2) for k in range(rng.randint(1, 4))]
    kind, delta = rng.choice(KINDS), rng.choice([20, 30, 60, 180])
    sim = rng.randint(0, 9)
    path, out = os.path.join(d, 'tracks.%05d.nc' % sim), os.path.join(d, 'out.nc')
    trackenv.write_tracks(path, [[(24 + q[0] / 60., (q[0] - r[0][0]) / 60., q[1], q[2], 10., 200., float(q[3]), q[4], q[5])
                                  for q in r] for r, s in cases], sim)
    # (the dates of these files are julian, a day later)
    save = rng.random() < .6
    got = {'cfg': cfg(cases, kind, delta, [[k, sim] for k in range(len(cases))]), 'kind': kind, 'delta': delta,
           'case': [r for r, s in cases]}
    try:
        args = [out] if save else []
        got['ev'] = events(I.parseTracks(None, path, None, delta / 60., *args, interpolation_type=kind))
        if save:
            got['saved'] = events(ncReadTrackData(out))
    except Exception:
        got['error'] = traceback.format_exc()[-900:]
        got['ev'] = [{'t': 'stopped'}]
    shutil.rmtree(d)
    return got


def corrupt(rng, t):
    ev = [dict(e) for e in t['ev']]
    pts = [i for i, e in enumerate(ev) if e['t'] == 'point']
    how = rng.choice(['drop-last', 'drop-first', 'time', 'cal', 'x', 'p', 'e', 'r', 'age', 'order', 'n', 'w'])
    i = rng.choice(pts)
    if how == 'w' and (t['cfg']['tracks'][0]['recs'][0]['w'] == -1 or any(q['p'] == -1 for q in t['cfg']['tracks'][0]['recs'])):
        how = 'e'     # no wind speeds to compare with
    if how == 'n' and ev[i]['n'] == -1:
        how = 'p'
    if how == 'drop-last':
        ev = ev[:-1]
    elif how == 'drop-first':
        del ev[pts[0]]
    elif how == 'x':
        ev[pts[0]]['x'] += 400
    elif how == 'order':
        ev = ev[:1] + ev[1:][::-1]
    else:
        ev[i][how] += 150
    return {'cfg': t['cfg'], 'ev': ev, 'about': t['about']}


def run():
    c = vf.Check('P20')
    c.source(exts=('Utilities._akima', 'Utilities._maputils'))
    tc.quiet()
    st = c.model_check('InterpTrackMC', min_states=100000)
    c.refute('InterpTrackMC', 'InterpTrackMCSlip', 'RuleAccepted')
    fakempi.no_mpi()
    import Evaluate.interpolateTracks      # loaded once, before the processes fork
    jobs = [('d', c.rng.randrange(10 ** 9)) for i in range(900 if c.quick else 6000)]
    jobs += [('f', c.rng.randrange(10 ** 9)) for i in range(240 if c.quick else 1500)]
    chunks = [(i % 2, jobs[i::14]) for i in range(14)]
    scratch = c.dir('p20')

    def chunk(q):
        if q[0]:     # without the compiled module
            sys.modules['Utilities._akima'] = None
        return [direct(s) if k == 'd' else files(s, os.path.join(scratch, '%d' % s)) for k, s in q[1]]

    got = []
    for q, r in zip(chunks, c.pmap(lambda q: c.call(chunk, q, timeout=400), chunks)):
        if r[0] != 'ok':
            c.violation('interpolating tracks did not end: %s %s' % (r[0], str(r[1])[:500]), q[1])
            continue
        got += r[1]
    traces = []
    stats = {'interpolations': 0, 'points': 0, 'saved_files': 0, 'single_records': 0, 'missing_pressures': 0,
             'shorter_than_step': 0}
    for g in got:
        about = {k: g[k] for k in ('kind', 'delta', 'case', 'error') if k in g}
        traces.append({'cfg': g['cfg'], 'ev': g['ev'], 'about': about})
        if 'saved' in g:
            traces.append({'cfg': g['cfg'], 'ev': g['saved'], 'about': dict(about, file=True)})
        rs = [t['recs'] for t in g['cfg']['tracks']]
        stats['interpolations'] += 1
        stats['points'] += len(g['ev'])
        stats['saved_files'] += 'saved' in g
        stats['single_records'] += any(len(r) == 1 for r in rs)
        stats['missing_pressures'] += any(q['p'] == -1 for r in rs for q in r)
        stats['shorter_than_step'] += any(len(r) > 1 and r[-1]['t'] - r[0]['t'] < g['delta'] for r in rs)
    n = len(traces)
    whole_ = [t for t in traces if len(t['ev']) > 3 and len(t['cfg']['tracks']) == 1]
    ctrl = [corrupt(c.rng, t) for t in c.rng.sample(whole_, min(60, len(whole_)))]
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('InterpTrack', allt, expect_reject=idx if not any(t['about'].get('error') for t in traces) else ())
    c.judge('InterpTrack', allt, res, idx)
    c.sample({'about': traces[0]['about'], 'points': len(traces[0]['ev'])})
    c.finish(**stats)


vf.main(run)
