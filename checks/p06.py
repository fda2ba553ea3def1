"""P06: stored wind fields are the envelope of the storm's time steps."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import trackenv
import datetime
import math
import random
import shutil
import numpy as np

GUST = 1.35
SAFE = [('powell', 'kepert'), ('holland', 'kepert'), ('holland', 'hubbert'), ('powell', 'mcconochie'),
        ('powell', 'hubbert'), ('schloemer', 'mcconochie'), ('holland', 'mcconochie')]


class Cfg(object):
    """Stands for a configuration without optional settings."""
    def getboolean(self, *a, **k):
        return k.get('fallback', False)

    def sections(self):
        return []


def track_of(rows, tid, trackmod):
    names = trackmod.TCRM_COLS
    a = np.zeros(len(rows), dtype=np.dtype({'names': names, 'formats': trackmod.TCRM_FMTS}))
    for i, r in enumerate(rows):
        a['CycloneNumber'][i] = tid[0]
        a['Datetime'][i] = datetime.datetime(1990, 1, 1) + datetime.timedelta(hours=int(r[0] - rows[0][0]))
        for n, v in zip(trackenv.COLS[2:], r[1:]):
            a[n][i] = v
    t = trackmod.Track(a)
    t.trackId = tid
    t.trackfile = 'none'
    return t


def reference(row, par, wm, convert):
    """The wind model at one time step, called directly with documented units."""
    _, _, lon, lat, speed, bear, pc, pe, rm = row
    weak = pc >= pe
    pc = min(pc, pe - 1.)
    names = wm.profileParams(par['profileType'])
    prof = wm.profile(par['profileType'])(lat, lon, pe * 100., pc * 100., rm * 1000.,
                                          *[par[k] for k in names if k in par])
    n = int(round(2 * par['margin'] / par['resolution'])) + 1
    xs = lon - par['margin'] + par['resolution'] * np.arange(n)
    ys = lat - par['margin'] + par['resolution'] * np.arange(n)
    X, Y = np.meshgrid(np.radians(xs), np.radians(ys))
    x0, y0 = math.radians(lon), math.radians(lat)
    a = np.sin((Y - y0) / 2) ** 2 + np.cos(y0) * np.cos(Y) * np.sin((X - x0) / 2) ** 2
    R = 2 * 6371. * np.arcsin(np.sqrt(a))
    az = np.arctan2(np.sin(X - x0) * np.cos(Y),
                    np.cos(y0) * np.sin(Y) - np.sin(y0) * np.cos(Y) * np.cos(X - x0))
    theta = math.pi / 2 - az
    f = wm.field(par['windFieldType'])(prof)
    R0 = np.maximum(R, 0.5)
    th = math.radians((90. - bear) % 360.)
    Ux, Vy = f.field(np.ascontiguousarray(R0 * 1000.), np.ascontiguousarray(theta), speed / 3.6, th, par['thetaMax'])
    if weak:                        # no deficit, no wind
        return R, np.zeros_like(R), np.zeros_like(R)
    return R, np.asarray(Ux) * GUST, np.asarray(Vy) * GUST


def deviation(row, par, wm, convert, win):
    """Per-mille disagreement of a step with the reference wind model."""
    R, U, V = reference(row, par, wm, convert)
    u, v = win[1], win[2]
    if u.shape != U.shape:
        return None
    d = np.hypot(u - U, v - V)
    m = np.hypot(U, V)
    keep = (R > 8.) & np.isfinite(d)
    # cells next to a jump of the model (e.g. at the radius of maximum wind)
    rm = row[8]
    for k in (rm, 1.2 * rm, 2 * rm):
        keep &= np.abs(R - k) > .5
    if not keep.any():
        return 0
    e = d[keep] / (1.0 + 0.03 * m[keep])
    return int(1000 * np.quantile(e, .9))


class Codes(object):
    """Order-preserving codes for gusts and pressures, identity for winds."""
    def __init__(self):
        self.g, self.p, self.w = set(), set(), {}

    def wind(self, u, v):
        return self.w.setdefault((float(np.float32(u)) + 0., float(np.float32(v)) + 0.), len(self.w))

    def ranks(self):
        return ({x: i for i, x in enumerate(sorted(self.g))}, {x: i for i, x in enumerate(sorted(self.p))})


def scenario(c, tracks, lim, windows, result, axes, par, devs, calls=None, files=None):
    """Build one trace. windows[s][i] = None | (g,u,v,p,lon,lat); result=(lon,lat,g,u,v,p)."""
    co = Codes()
    f32 = lambda z: np.asarray(z, dtype='f4').astype(float)
    env = [float(np.float32(t[0][7] * 100.)) for t in tracks]
    top = 2e5
    co.g.add(0.)
    co.p.update(env + [top])
    ev = []
    lon, lat = axes
    n = len(lon) * len(lat)

    def cell(x, y):
        i, j = int(np.abs(lon - x).argmin()), int(np.abs(lat - y).argmin())
        if abs(lon[i] - x) > .3 * par['resolution'] or abs(lat[j] - y) > .3 * par['resolution']:
            return 0
        return j * len(lon) + i + 1
    raw = []
    for s, t in enumerate(tracks):
        raw.append(('storm', s))
        for i, row in enumerate(t):
            w = windows[s][i]
            raw.append(('step', s, i, row, w))
    for r in raw:
        if r[0] == 'step' and r[4] is not None and not isinstance(r[4], str):
            g, u, v, p, xl, yl = r[4]
            co.g.update(f32(g).ravel())
            co.p.update(f32(p).ravel())
    if result is not None:
        g, u, v, p = result[:4]
        co.g.update(f32(g).ravel())
        co.p.update(f32(p).ravel())
    if any(not math.isfinite(x) for x in co.g | co.p):
        return {'cfg': {'x0': 0, 'x1': 0, 'y0': 0, 'y1': 0, 'n': 1, 'calm': 0, 'still': 0, 'top': 1,
                        'env': [1], 'tol': 0}, 'ev': [{'t': 'fail'}]}
    G, P = co.ranks()
    m = lambda x: int(round(x * 1e6))
    for r in raw:
        if r[0] == 'storm':
            ev.append({'t': 'storm', 's': r[1] + 1})
            continue
        _, s, i, row, w = r
        e = {'t': 'step', 's': s + 1, 'x': m(row[2]), 'y': m(row[3]), 'fail': isinstance(w, str) or w is None,
             'off': 0, 'dev': 0, 'c': [], 'g': [], 'w': [], 'p': []}
        if not e['fail']:
            g, u, v, p, xl, yl = w
            if g.shape != (len(yl), len(xl)):
                e['fail'] = True
            else:
                k = np.unravel_index(int(np.argmin(p)), p.shape)
                off = max(abs(xl[k[1]] - row[2]), abs(yl[k[0]] - row[3])) / par['resolution']
                e['off'] = max(int(1000 * off) - 1500, 0) if row[6] < row[7] else 0
                e['dev'] = max(devs[s][i] - 1000, 0) if devs and devs[s][i] is not None else 0
                e['c'] = [cell(x, y) for y in yl for x in xl]
                e['g'] = [G[x] for x in f32(g).ravel()]
                e['p'] = [P[x] for x in f32(p).ravel()]
                e['w'] = [co.wind(a, b) for a, b in zip(u.ravel(), v.ravel())]
        ev.append(e)
    if calls is not None:
        for s, at in enumerate(calls):
            ev.append({'t': 'calls', 's': s + 1, 'at': at})
    ev.append({'t': 'axes', 'ok': bool(
        abs(lon[0] - (lim['xMin'] - par['margin'])) < .006 and abs(lat[0] - (lim['yMin'] - par['margin'])) < .006 and
        lon[-1] > lim['xMax'] + par['margin'] - .006 and lat[-1] > lim['yMax'] + par['margin'] - .006 and
        lon[-1] < lim['xMax'] + par['margin'] + par['resolution'] + .006 and
        lat[-1] < lim['yMax'] + par['margin'] + par['resolution'] + .006 and
        np.allclose(np.diff(lon), par['resolution'], atol=1e-4) and
        np.allclose(np.diff(lat), par['resolution'], atol=1e-4))})
    still = co.wind(0., 0.)
    if result is None:
        ev.append({'t': 'fail'})
    else:
        g, u, v, p = result[:4]
        turned = 0
        if len(result) > 4:
            dif = (np.degrees(np.arctan2(-u, -v)) - result[4] + 180.) % 360. - 180.
            turned = int(((np.abs(dif) > .05) & (g > .01)).sum())
        ev.append({'t': 'result', 'turned': turned, 'g': [G[x] for x in f32(g).ravel()], 'p': [P[x] for x in f32(p).ravel()],
                   'w': [co.wind(a, b) for a, b in zip(u.ravel(), v.ravel())]})
    cfg = {'x0': m(lim['xMin']), 'x1': m(lim['xMax']), 'y0': m(lim['yMin']), 'y1': m(lim['yMax']),
           'n': n, 'calm': G[0.], 'still': still, 'top': P[top], 'env': [P[x] for x in env], 'tol': 0}
    return {'cfg': cfg, 'ev': ev}


def run():
    c = vf.Check('P06')
    c.source(exts=('Utilities._akima', 'Utilities._maputils', 'PressureInterface._pressureProfile',
                   'wind._windmodels'))
    tc.quiet()
    c.model_check('EnvelopeMC', min_states=1000)
    import wind
    from wind import windmodels as wm
    from Utilities import track as trackmod
    from Utilities.metutils import convert
    import PressureInterface.pressureProfile
    import tqdm
    traces = []
    stats = {'storms': 0, 'steps': 0, 'steps_inside': 0, 'steps_on_edge': 0, 'full_domain': 0, 'gust_files': 0,
             'evolution_files': 0, 'multi_storm_files': 0, 'reference_fields_compared': 0}
    N = 77 if c.quick else 500

    def case(k):
        rng = random.Random('%d/%d' % (c.seed, k))
        st = dict.fromkeys(stats, 0)
        traces = []
        pt, ft = rng.choice(SAFE)
        res = rng.choice([0.5, 0.25, 0.5, 0.2, 0.29, 0.4])
        mar = res * rng.choice([2, 3, 4])
        nx, ny = rng.randint(3, 8), rng.randint(3, 8)
        x0 = rng.choice([0., 110.2, 128.2, 150., 178.5, -3 * res, -60.3])
        y0 = rng.choice([-25., -18.4, 12., 20.3, -12.1])
        if k % 6 == 5:
            y0 = rng.choice([0., -ny * res])        # a limit on the equator
        par = {'profileType': pt, 'windFieldType': ft, 'beta': 1.3, 'beta1': 1.5, 'beta2': 1.4,
               'thetaMax': rng.choice([0., 70., 115.]), 'margin': round(mar, 4), 'resolution': res}
        lim = {'xMin': round(x0, 3), 'xMax': round(x0 + nx * res, 3), 'yMin': round(y0, 3), 'yMax': round(y0 + ny * res, 3)}
        box = (lim['xMin'], lim['xMax'], lim['yMin'], lim['yMax'])
        mode = ['track', 'trackfile', 'run', 'run'][k % 4]
        dom = 'full' if rng.random() < .3 else 'bounded'
        nst = 1 if mode == 'track' else rng.randint(2, 4)
        tracks = [trackenv.random_track(rng, box, rng.randint(2, 7), margin=2 * res,
                                        fast=rng.random() < .4, far=.25, weak=.08) for _ in range(nst)]
        for t in tracks:
            for i, r in enumerate(t):
                if abs(r[3]) < 0.2:      # no rotation on the equator itself
                    t[i] = r[:3] + (0.2 if box[2] >= 0 else -0.2,) + r[4:]
        evo = mode == 'run' and k % 8 == 3
        own = k % 8 == 2
        d = c.dir('case')

        def one(t, i):
            got = []
            with_lim = dict(lim)
            w = wind.WindfieldAroundTrack(track_of([t[i]], (0, 0), trackmod), profileType=pt, windFieldType=ft,
                                          beta=par['beta'], beta1=par['beta1'], beta2=par['beta2'],
                                          thetaMax=par['thetaMax'], margin=par['margin'],
                                          resolution=res, gridLimit=with_lim, domain=dom)
            w.regionalExtremes(with_lim, lambda *a: got.append([np.array(z) for z in a[1:]]))
            return got[0] if got else None

        def work():
            fakempi.no_mpi()
            windows, devs = [], []
            for t in tracks:
                ww, dd = [], []
                for i in range(len(t)):
                    try:
                        ww.append(one(t, i))
                    except Exception as e:
                        ww.append(repr(e)[:200])
                    w = ww[-1]
                    dd.append(deviation(t[i], par, wm, convert, w) if dom == 'bounded' and w is not None
                              and not isinstance(w, str) else None)
                windows.append(ww)
                devs.append(dd)
            calls = None
            if mode == 'track':
                at = []
                base = datetime.datetime(1990, 1, 1)
                w = wind.WindfieldAroundTrack(track_of(tracks[0], (0, 0), trackmod), profileType=pt, windFieldType=ft,
                                              beta=par['beta'], beta1=par['beta1'], beta2=par['beta2'],
                                              thetaMax=par['thetaMax'], margin=par['margin'],
                                              resolution=res, gridLimit=lim, domain=dom)
                g, b, u, v, p, lon, lat = w.regionalExtremes(
                    lim, lambda tm, *a: at.append(int((tm - base).total_seconds())))
                return windows, devs, [at], [(lon, lat, g, u, v, p, b)], None
            f = os.path.join(d, 'tracks.00003.nc')
            if mode == 'trackfile':
                trackenv.write_tracks(f, tracks, 3)
                gen = wind.WindfieldGenerator(Cfg(), margin=par['margin'], resolution=res, profileType=pt,
                                              windFieldType=ft, beta=par['beta'], beta1=par['beta1'],
                                              beta2=par['beta2'], thetaMax=par['thetaMax'], gridLimit=lim, domain=dom)
                g, b, u, v, p, lon, lat = gen.calculateExtremesFromTrackfile(f)
                return windows, devs, None, [(lon, lat, g, u, v, p, b)], None
            out = os.path.join(d, 'output')
            for q in ('tracks', 'windfield'):
                os.makedirs(os.path.join(out, q))
            trackenv.write_tracks(os.path.join(out, 'tracks', 'tracks.00003.nc'), tracks, 3)
            sec = {'Region': {'gridLimit': repr(lim)}, 'Output': {'Path': out},
                   'WindfieldInterface': {'profileType': pt, 'windFieldType': ft, 'beta': 1.3, 'beta1': 1.5,
                                          'beta2': 1.4, 'thetaMax': par['thetaMax'], 'Margin': par['margin'],
                                          'Resolution': res, 'Domain': dom}}
            if own:
                # limits of the wind fields themselves take precedence
                sec['Region']['gridLimit'] = repr(dict(lim, xMin=lim['xMin'] - 2., yMax=lim['yMax'] + 1.))
                sec['WindfieldInterface']['gridLimit'] = repr(lim)
            if evo:
                sec['Timeseries'] = {'Windfields': 'True'}
            wind.run(tc.write_ini(os.path.join(d, 'c.ini'), sec))
            got, layers = [], []
            for n in range(len(tracks)):
                p = os.path.join(out, 'windfield', 'gust.%03d-%05d.nc' % (n, 3))
                if not os.path.exists(p):
                    got.append(None)
                else:
                    r = tc.read_nc(p, ['lon', 'lat', 'vmax', 'ua', 'va', 'slp'])
                    o = np.argsort(r['lat'])
                    got.append((r['lon'], r['lat'][o]) + tuple(r[q][o] for q in ('vmax', 'ua', 'va', 'slp')))
                q = os.path.join(out, 'windfield', 'evolution.%03d-%05d.nc' % (n, 3))
                if os.path.exists(q):
                    layers.append(tc.read_nc(q, ['lon', 'lat', 'time', 'gust_speed', 'velocity_east',
                                                 'velocity_north', 'pressure']))
                else:
                    layers.append(None)
            return windows, devs, None, got, layers
        r = c.call(work, timeout=120)
        shutil.rmtree(d)
        info = {'mode': mode, 'parameters': par, 'domain': dom, 'limits': lim, 'tracks': tracks}
        inside = [[i for i, w in enumerate(t) if box[0] <= w[2] <= box[1] and box[2] <= w[3] <= box[3]] for t in tracks]
        st['storms'] += nst
        st['steps'] += sum(len(t) for t in tracks)
        st['steps_inside'] += sum(len(i) for i in inside)
        st['steps_on_edge'] += sum(w[2] in box[:2] or w[3] in box[2:] for t in tracks for w in t)
        st['full_domain'] += dom == 'full'
        if r[0] != 'ok':
            traces.append({'cfg': {'x0': 0, 'x1': 0, 'y0': 0, 'y1': 0, 'n': 1, 'calm': 0, 'still': 0, 'top': 1,
                                   'env': [1], 'tol': 0}, 'ev': [{'t': 'fail'}], 'about': dict(info, error=str(r[1])[:600])})
            return traces, st
        windows, devs, calls, results, layers = r[1]
        st['reference_fields_compared'] += sum(x is not None for dd in devs for x in dd)
        if mode in ('track', 'trackfile'):
            lon, lat = results[0][:2]
            t = scenario(c, tracks, lim, windows, results[0][2:], (lon, lat), par, devs, calls)
            st['multi_storm_files'] += mode == 'trackfile'
            traces.append(dict(t, about=info))
            return traces, st
        for n, got in enumerate(results):
            if got is None:
                if inside[n]:
                    traces.append({'cfg': {'x0': 0, 'x1': 0, 'y0': 0, 'y1': 0, 'n': 1, 'calm': 0, 'still': 0,
                                           'top': 1, 'env': [1], 'tol': 0}, 'ev': [{'t': 'fail'}],
                                   'about': dict(info, error='no gust file for storm %d' % n)})
                continue
            st['gust_files'] += 1
            t = scenario(c, [tracks[n]], lim, [windows[n]], got[2:], got[:2], par, [devs[n]])
            traces.append(dict(t, about=dict(info, storm=n)))
            if evo:
                L = layers[n]
                if L is None:
                    ok = not inside[n]
                    if not ok:
                        traces.append({'cfg': t['cfg'], 'ev': [{'t': 'fail'}], 'about': dict(info, error='no evolution file')})
                    continue
                st['evolution_files'] += 1
                lw = [None] * len(tracks[n])
                for q, i in enumerate(inside[n]):
                    if q < len(L['time']):
                        ps = L['pressure'][q]
                        rows = np.where(np.isfinite(ps).any(axis=1))[0]
                        cols = np.where(np.isfinite(ps).any(axis=0))[0]
                        if len(rows) == 0:
                            lw[i] = 'empty layer'
                            continue
                        sl = (slice(rows[0], rows[-1] + 1), slice(cols[0], cols[-1] + 1))
                        lw[i] = [L['gust_speed'][q][sl], L['velocity_east'][q][sl], L['velocity_north'][q][sl],
                                 ps[sl], L['lon'][sl[1]].astype(float), L['lat'][sl[0]].astype(float)]
                tt = scenario(c, [tracks[n]], lim, [lw], got[2:], got[:2], par, [[None] * len(tracks[n])],
                              calls=[[int(round((x - L['time'][0]) * 86400)) for x in L['time']]])
                traces.append(dict(tt, about=dict(info, storm=n, source='evolution file')))
        return traces, st
    for tt, st in c.pmap(case, range(N), timeout=700):
        traces += tt
        for q in st:
            stats[q] += st[q]
    if stats['steps_inside'] < 20:
        raise vf.CheckError('too few steps')
    n = len(traces)
    ctrl = []
    for t in c.rng.sample([t for t in traces if t['ev'][-1]['t'] == 'result' and t['cfg']['n'] > 1], min(8, n // 3)):
        e = t['ev'][-1]
        i = c.rng.randrange(t['cfg']['n'])
        for f, d in (('g', 1), ('p', -1), ('w', 10 ** 6)):
            z = list(e[f])
            z[i] += d
            ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:-1] + [dict(e, **{f: z})]})
        steps = [j for j, q in enumerate(t['ev']) if q['t'] == 'step' and not q['fail'] and max(q['g']) == max(e['g'])]
        if len(steps) == 1 and max(e['g']) > t['cfg']['calm']:      # the only step with the peak gust is lost
            ctrl.append({'cfg': t['cfg'], 'ev': [q for j, q in enumerate(t['ev']) if j != steps[0]]})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Envelope', allt, expect_reject=idx)
    c.judge('Envelope', allt, res, idx)
    c.sample({'about': traces[0]['about'], 'cells': traces[0]['cfg']['n']})
    c.finish(scenarios=N, **stats)


vf.main(run)
