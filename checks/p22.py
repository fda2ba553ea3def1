"""P22: wind and pressure profiles, wind fields."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import math
import random
import traceback
import numpy as np

BAD = -99999999
RHO = 1.15
RADII = [.01, .02, .05, .1, .2, .3, .4, .5, .6, .7, .8, .9, .95, 1., 1.02, 1.05, 1.1, 1.2, 1.35, 1.5, 1.75, 2., 2.5, 3., 4., 5., 7., 9., 12., 16.]
COMPILED = {}


def compiled(on):
    """Use the compiled modules or the plain ones."""
    for name in ('wind._windmodels', 'PressureInterface._pressureProfile', 'Utilities._maputils'):
        pkg, mod = name.split('.')
        if name not in COMPILED:
            __import__(name)
            COMPILED[name] = sys.modules[name]
        if on:
            sys.modules[name] = COMPILED[name]
            setattr(sys.modules[pkg], mod, COMPILED[name])
        else:
            sys.modules[name] = None
            if hasattr(sys.modules[pkg], mod):
                delattr(sys.modules[pkg], mod)


def whole(x, k=100., top=40000):
    x = float(x)
    return int(round(max(-top, min(top, x * k)))) if x == x else BAD


def coriolis(lat):
    return 2 * 2 * math.pi / 86164. * math.sin(math.radians(abs(lat)))


class Storm:
    def __init__(self, rng, case):
        self.hemi = 1 if case['hemi'] == 'north' else -1
        self.name, self.fname = case['p'], case['f']
        self.lat = rng.choice([rng.uniform(1., 12.), rng.uniform(5., 40.)])
        self.pe = rng.uniform(990., 1020.)
        self.dp = rng.choice([rng.uniform(5., 30.), rng.uniform(5., 100.), 15., rng.uniform(7., 15.)])
        self.rm = rng.choice([rng.uniform(8., 40.), rng.uniform(8., 100.)])
        self.beta = rng.uniform(.9, 2.)
        self.b1, self.b2 = rng.uniform(1.2, 1.8), rng.uniform(1.2, 1.8)
        self.move = rng.choice([rng.uniform(.5, 4.), rng.uniform(4., 15.)]) if case['moving'] else 0.
        self.to = rng.choice([rng.uniform(-math.pi, math.pi), 0., math.pi / 2])
        self.side = rng.choice([70., 45., 115., 0., -70., rng.uniform(-180, 180)])
        if case['what'] == 'ring' and self.fname == 'kepert':
            self.move, self.lat = rng.uniform(3., 12.), rng.uniform(8., 35.)

    def profile(self, mirror=False, hpa=False):
        import wind.windmodels as W
        k = 1. if hpa else 100.
        extra = {'holland': [self.beta], 'doubleHolland': [self.b1, self.b2]}.get(self.name, [])
        return W.profile(self.name)(self.hemi * self.lat * (-1 if mirror else 1), 120., self.pe * k,
                                    (self.pe - self.dp) * k, self.rm * 1000., *extra)

    def about(self):
        return {k: v if isinstance(v, (str, int)) else round(v, 4) for k, v in self.__dict__.items()}


def config(s, kind, n, **kw):
    return dict({'kind': kind, 'hemi': s.hemi, 'vmax': 0, 'single': False, 'balance': False, 'still': False, 'pc': 0, 'pe': 0,
                 'half': False, 'reach': False, 'n': n}, **kw)


def cyclonic(s, R):
    """Whether the vorticity has the sense of the storm everywhere (elsewhere
    the two implementations of the boundary layer are not the same)."""
    if s.name in ('newHolland', 'rankine'):
        return False
    compiled(False)
    z = s.profile().vorticity(np.array(R))
    compiled(True)
    return bool((z * s.hemi > 0).all())


def setmax(p, v):
    p.vMax = v
    return p


def velocity(rng, case):
    s = Storm(rng, case)
    R = np.array(RADII) * s.rm * 1000.
    R[RADII.index(1.)] = s.rm * 1000.
    given = 0.
    if s.name in ('jelesnianski', 'rankine') and rng.random() < .4:
        # a maximum wind that does not come from the pressures
        given = rng.uniform(8., 70.)
        make, s.profile = s.profile, lambda **kw: setmax(make(**kw), given)
    p = s.profile()
    single = s.name not in ('doubleHolland', 'newHolland')
    vort = s.name not in ('newHolland', 'rankine')
    v, m, h = p.velocity(R.copy()), s.profile(mirror=True).velocity(R.copy()), s.profile(hpa=True).velocity(R.copy())
    z = p.vorticity(R.copy()) if vort else 0 * v
    zm = s.profile(mirror=True).vorticity(R.copy()) if vort else 0 * v
    compiled(False)
    a, za = s.profile().velocity(R.copy()), (s.profile().vorticity(R.copy()) if vort else 0 * v)
    compiled(True)
    if (za * s.hemi <= 0).any():
        za = z
    g, rf = 0 * R, 0 * R
    balance = s.name in ('holland', 'schloemer')
    if balance:
        q = lambda r: getattr(pressures(s, r), s.name)()
        d = 1e-4
        g = R / RHO * (q(R / 1000. * (1 + d)) - q(R / 1000. * (1 - d))) / (2 * d * R)
        rf = R * coriolis(s.lat)
    ev = [{'t': 'v', 'r': int(round(r * 1000)), 'v': whole(v[i]), 'm': whole(m[i]), 'a': whole(a[i]), 'h': whole(h[i]),
           'z': whole(z[i], 1e7, 9e7), 'zm': whole(zm[i], 1e7, 9e7), 'za': whole(za[i], 1e7, 9e7),
           'rf': whole(rf[i]), 'g': whole(g[i], 1e4, 4e8)} for i, r in enumerate(RADII)]
    c = config(s, 'v', len(ev), single=single, vmax=whole(given or p.vMax) if single else 0, balance=balance)
    return split(s, c, ev, lambda e: dict(e, m=-e['v'], zm=-e['z']))


def split(s, c, ev, unmirrored):
    """The double vortex is not mirrored: a trace of its own for that."""
    if s.name != 'doubleHolland':
        return [{'cfg': c, 'ev': ev}]
    return [{'cfg': c, 'ev': [unmirrored(e) for e in ev]}, {'cfg': c, 'ev': ev, 'key': 'double-vortex-not-mirrored'}]


def pressures(s, r):
    from PressureInterface.pressureProfile import PrsProfile
    return PrsProfile(np.array(r), s.pe * 100., (s.pe - s.dp) * 100., s.rm, s.hemi * s.lat, 120., s.beta, beta1=s.b1, beta2=s.b2)


def pressure(rng, case):
    s = Storm(rng, case)
    rr = RADII + [30., 60., 150., 400., 1500.]
    p = getattr(pressures(s, np.array(rr) * s.rm), s.name)()
    compiled(False)
    a = getattr(pressures(s, np.array(rr) * s.rm), s.name)()
    compiled(True)
    ev = [{'t': 'p', 'r': int(round(r * 1000)), 'v': whole(p[i], 10., 2e7), 'a': whole(a[i], 10., 2e7)} for i, r in enumerate(rr)]
    t = {'cfg': config(s, 'p', len(ev), pc=whole((s.pe - s.dp) * 100, 10, 2e7), pe=whole(s.pe * 100, 10, 2e7), reach=True), 'ev': ev}
    if s.name == 'willoughby' and 1.0036 + .0173 * .6252 * math.sqrt(s.dp * 100.) - .313 * math.log(s.rm) + .0087 * s.lat < .6:
        t['key'] = 'weak-large-willoughby-pressure'
    return [t]


def winds(ev, x, y, **uv):
    for i in np.ndindex(x.shape):
        e = {'t': 'w', 'x': int(round(1000 * x[i])), 'y': int(round(1000 * y[i]))}
        for k in uv:
            e[k] = whole(uv[k][i])
        ev.append(e)
    return ev


def field(rng, case):
    import wind.windmodels as W
    s = Storm(rng, case)
    q = np.array([rng.choice([.05, .2, .5, .8, .95, 1.05, 1.3, 2., 3., 5., 8.]) for i in range(40)]) * s.rm * 1000.
    lam = np.array([rng.uniform(-math.pi, math.pi) for i in range(40)])
    # largest wind of the array enters one model: always have the maximum
    q[0] = s.rm * 1000.
    f = lambda mirror=False, turn=0.: W.field(s.fname)(s.profile(mirror)).field(
        q.copy(), -lam if mirror else lam + turn, s.move, -s.to if mirror else s.to + turn, -s.side if mirror else s.side)
    u, v = f()
    um, vm = f(True)
    k = rng.uniform(-3., 3.)
    u2, v2 = f(turn=k)
    ur, vr = u2 * math.cos(k) + v2 * math.sin(k), -u2 * math.sin(k) + v2 * math.cos(k)
    ua, va = u, v
    if cyclonic(s, q):
        compiled(False)
        ua, va = f()
        compiled(True)
    ev = winds([], np.cos(lam), np.sin(lam), u=u, v=v, um=um, vm=vm, ur=ur, vr=vr, ua=ua, va=va)
    c = config(s, 'w', len(ev), still=s.move == 0.)
    if s.name == 'doubleHolland' and s.fname == 'kepert':
        return [{'cfg': c, 'ev': ev, 'key': 'double-vortex-boundary-layer'}]
    return split(s, c, ev, lambda e: dict(e, um=e['u'], vm=-e['v']))


def ring(rng, case):
    import wind.windmodels as W
    s = Storm(rng, case)
    s.move = min(s.move, .2 * s.dp ** .5 * 6)
    half = s.fname == 'kepert'
    lam = np.arange(-180., 180., 2.) * math.pi / 180.
    u, v = W.field(s.fname)(s.profile()).field(s.rm * 1000. * np.ones(lam.shape), lam, s.move, s.to, s.side)
    to = math.degrees(s.to) + (0. if half else s.side)
    wrap = lambda a: int(round((a + 180.) % 360. - 180.))
    ev = [{'t': 'ring', 'a': wrap(math.degrees(lam[i]) - to), 'v': whole(math.hypot(u[i], v[i]), 1000., 4e5)} for i in range(len(lam))]
    t = {'cfg': config(s, 'ring', len(ev), half=half), 'ev': ev}
    if s.name == 'doubleHolland' and half:
        t['key'] = 'double-vortex-boundary-layer'
    return [t]


def line(rng, case):
    import wind.windmodels as W
    s = Storm(rng, case)
    out = []
    lam = rng.uniform(-math.pi, math.pi)
    # one array for both parts: the largest wind of the array enters one model
    part = [np.exp(np.linspace(math.log(.3), math.log(.99), 90)), np.exp(np.linspace(math.log(1.01), math.log(10.), 180))]
    r = np.concatenate(part + [[1.]])
    u, v = W.field(s.fname)(s.profile()).field(s.rm * 1000. * r, lam * np.ones(r.shape), s.move, s.to, s.side)
    w = np.hypot(u, v)
    for a, b in ((0, 90), (90, 270)):
        ev = [{'t': 'line', 'r': int(round(1e6 * r[i])), 'v': whole(w[i])} for i in range(a, b)]
        out.append({'cfg': config(s, 'line', len(ev), vmax=whole(max(w[a:b]))), 'ev': ev})
    return out


def one_record(s, lon, lat, bearing, pe):
    from Utilities.track import Track
    from datetime import datetime
    names = ['Datetime', 'Longitude', 'Latitude', 'Speed', 'Bearing', 'CentralPressure', 'EnvPressure', 'rMax']
    d = np.zeros(1, dtype={'names': names, 'formats': ['O'] + ['f8'] * 7})
    d[0] = (datetime(2000, 1, 1), lon, lat, s.move * 3.6, bearing, pe - s.dp, pe, s.rm)
    t = Track(d)
    t.trackId, t.trackfile = (1, 1), 'x'
    return t


def around_track(rng, case):
    from wind import WindfieldAroundTrack
    s = Storm(rng, case)
    s.lat = rng.randint(4, 140) / 4.
    lon = rng.randint(400, 1200) / 4.
    bearing = rng.choice([0., 90., rng.uniform(0, 360)])
    margin, step = rng.choice([(1., .25), (1., .125), (2., .5)])

    def f(lat, lon, bearing, side):
        w = WindfieldAroundTrack(one_record(s, lon, lat, bearing, s.pe), profileType=s.name, windFieldType=s.fname, beta=s.beta,
                                 beta1=s.b1, beta2=s.b2, thetaMax=side, margin=margin, resolution=step)
        return w.localWindField(0)
    lat = s.hemi * s.lat
    u, v, p = f(lat, lon, bearing, s.side)
    um, vm, pm = [q[::-1] for q in f(-lat, lon, 180. - bearing, -s.side)]
    ur, vr, pr = f(lat, lon + 7.25, bearing, s.side)
    n = int(round(margin / step))
    # the place of the grid points, row by row from south to north
    yy, xx = np.mgrid[-n:n + 1, -n:n + 1] * step
    y, x = np.radians(lat + yy), np.radians(xx)
    c = math.radians(lat)
    # components of the direction from the centre, east and north
    east = np.sin(x) * np.cos(y)
    north = np.cos(c) * np.sin(y) - math.sin(c) * np.cos(y) * np.cos(x)
    d = np.hypot(east, north)
    keep = d > 1e-6
    if s.fname == 'mcconochie' or s.name == 'doubleHolland':
        keep &= np.ones(d.shape, dtype=bool)
    from Utilities.maputils import makeGrid
    ua, va = u, v
    if cyclonic(s, makeGrid(lon, lat, margin, step)[0][keep] * 1000.):
        compiled(False)
        ua, va, pa = f(lat, lon, bearing, s.side)
        compiled(True)
    d = np.where(keep, d, 1.)
    ev = winds([], (east / d)[keep], (north / d)[keep], u=u[keep], v=v[keep], um=um[keep], vm=vm[keep], ur=ur[keep], vr=vr[keep],
               ua=ua[keep], va=va[keep])
    cf = config(s, 'w', int(keep.sum()), still=s.move == 0.)
    if s.name == 'doubleHolland' and s.fname == 'kepert':
        out = [{'cfg': cf, 'ev': ev, 'key': 'double-vortex-boundary-layer'}]
    else:
        out = split(s, cf, ev, lambda e: dict(e, um=e['u'], vm=-e['v']))
    # pressure eastwards from the centre
    row = p[n, n:]
    ev = [{'t': 'p', 'r': i + 1, 'v': whole(q, 10., 2e7), 'a': whole(pm[n, n + i], 10., 2e7)} for i, q in enumerate(row)]
    t = {'cfg': config(s, 'p', len(ev), pc=whole((s.pe - s.dp) * 100, 10, 2e7), pe=whole(s.pe * 100, 10, 2e7)), 'ev': ev}
    if s.name == 'willoughby' and 1.0036 + .0173 * .6252 * math.sqrt(s.dp * 100.) - .313 * math.log(s.rm) + .0087 * s.lat < .6:
        t['key'] = 'weak-large-willoughby-pressure'
    return out + [t]


def speeds(rng, case):
    from wind import vmax
    s = Storm(rng, dict(case, f='', moving=False))
    pe = 101000. if s.name == 'atkinson' else s.pe * 100.
    k = rng.choice([1., .01])       # Pa or hPa
    ev = []
    for d in sorted(set(rng.randint(1, 110) for i in range(12))):
        d *= 100.
        kw = {'beta': s.beta} if s.name == 'holland' else {}
        v = vmax.vmax((pe - d) * k, pe * k, s.name, **kw)
        back = pe - vmax.pDiff(v, pe * k, s.name, **kw)
        ev.append({'t': 's', 'd': whole(d, 10., 1e8), 'v': whole(v, 1000., 1e8), 'back': whole(back, 10., 1e8)})
    return [{'cfg': config(s, 's', len(ev)), 'ev': ev}]


WHAT = {'v': velocity, 'p': pressure, 'w': field, 'ring': ring, 'line': line, 'track': around_track, 's': speeds}


def corrupt(rng, t):
    ev = [dict(e) for e in t['ev']]
    k = t['cfg']['kind']
    i = rng.randrange(len(ev))
    how = rng.choice(['drop', 'nan', 'value', 'value'])
    if how == 'drop':
        del ev[i]
    elif how == 'nan':
        ev[i]['v'] = BAD
    elif k == 'v':
        f = rng.choice(['m', 'a', 'h'])
        ev[i][f] = ev[i][f] + 100
    elif k == 'line':
        ev[i]['v'] += t['cfg']['vmax'] // 8 + 50
    elif k == 'p':
        ev[i]['v'] = t['cfg']['pe'] + 50
    elif k == 'w':
        ev[i][rng.choice(['u', 'v'])] += 500
    elif k == 'ring':
        for e in ev:
            e['a'] = (e['a'] + 180 + 160) % 360 - 180
        if t['cfg']['half']:
            del ev[0]
    else:
        ev[i]['back'] += 500
    return {'cfg': t['cfg'], 'ev': ev, 'about': t['about']}


def run():
    c = vf.Check('P22')
    c.source(exts=('wind._windmodels', 'PressureInterface._pressureProfile', 'Utilities._maputils'))
    tc.quiet()
    np.seterr(all='ignore')
    c.model_check('VortexMC', min_states=50000)
    c.refute('VortexMC', 'VortexMCFixedSign', 'StormAccepted')
    c.refute('VortexMC', 'VortexMCOtherPeak', 'StormAccepted')
    cases = c.generate('VortexGen', 'VortexGen')
    fakempi.no_mpi()
    import wind      # loaded once, before the processes fork
    compiled(True)
    weight = {'v': 8, 'p': 6, 's': 6, 'w': 4, 'ring': 1, 'line': 1, 'track': 1}
    jobs = [(q, c.rng.randrange(10 ** 9)) for q in cases for i in range(weight[q['what']] * (1 if c.quick else 6))]
    chunks = [jobs[i::14] for i in range(14)]

    def chunk(q):
        out = []
        for case, seed in q:
            rng = random.Random(seed)
            try:
                r = WHAT[case['what']](rng, case)
                s = Storm(random.Random(seed), case) if case['what'] != 's' else None
                for t in r:
                    t['about'] = dict(case, seed=seed, **({'storm': s.about()} if s else {}))
            except Exception:
                r = [{'cfg': config(Storm(random.Random(seed), dict(case, moving=False)), case['what'], 1), 'ev': [{'t': 'stopped'}],
                      'about': dict(case, seed=seed, error=traceback.format_exc()[-900:])}]
                compiled(True)
            out += r
        return out

    traces = []
    for q, r in zip(chunks, c.pmap(lambda q: c.call(chunk, q, timeout=400), chunks)):
        if r[0] != 'ok':
            c.violation('a wind field did not end: %s %s' % (r[0], str(r[1])[:500]), q)
            continue
        traces += r[1]
    n = len(traces)
    good = [t for t in traces if 'key' not in t and 'error' not in t['about']]
    ctrl = [corrupt(c.rng, t) for t in c.rng.sample(good, min(80, len(good)))]
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Vortex', allt, expect_reject=idx if len(good) == sum('key' not in t for t in traces) else ())
    c.judge('Vortex', allt, res, idx)
    count = lambda k: sum(1 for t in traces if t['about']['what'] == k)
    c.sample({'about': traces[0]['about'], 'events': len(traces[0]['ev'])})
    c.finish(models=len(cases), profiles=count('v'), pressure_profiles=count('p'), wind_fields=count('w'), rings=count('ring'), lines=count('line'),
             fields_around_tracks=count('track'), values=sum(len(t['ev']) for t in traces))


vf.main(run)
