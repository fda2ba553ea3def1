"""P28: the recorded evolution of a wind field has every time step in its place."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import tc
import trackenv
import copy
import datetime
import random
import re
import shutil
import numpy as np

MODELS = [('powell', 'kepert'), ('holland', 'kepert'), ('holland', 'hubbert'), ('powell', 'mcconochie'),
          ('schloemer', 'mcconochie'), ('holland', 'mcconochie')]


def ints(z, f):
    z = np.asarray(z, float)
    return [int(round(q * f)) if np.isfinite(q) else -1 for q in z.ravel()]


def minutes(t):
    return int(round((datetime.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second) -
                      datetime.datetime(1990, 1, 1)).total_seconds() / 60. + t.microsecond / 6e7))


def layers(path):
    from netCDF4 import Dataset, num2date
    nc = Dataset(path)
    nc.set_auto_mask(False)
    lon, lat = np.array(nc.variables['lon'][:], float), np.array(nc.variables['lat'][:], float)
    tm = nc.variables['time']
    ev = [{'t': 'axes', 'lon': sorted(ints(lon, 100)), 'lat': sorted(ints(lat, 100))}]
    a, b = np.argsort(lat), np.argsort(lon)
    for n in range(len(tm)):
        q = [np.array(nc.variables[v][n], float)[a][:, b] for v in ('gust_speed', 'velocity_east', 'velocity_north', 'pressure')]
        ev.append({'t': 'layer', 'time': minutes(num2date(tm[n], tm.units)), 'g': ints(q[0], 1000), 'u': ints(q[1], 1000),
                   'v': ints(q[2], 1000), 'p': ints(q[3], 10)})
    nc.close()
    return ev


def run():
    c = vf.Check('P28')
    c.source()
    tc.quiet()
    c.model_check('EvolutionMC', min_states=1000)
    for v in ('Shifted', 'Kept', 'Skips', 'Last'):
        c.refute('EvolutionMC', 'EvolutionMC' + v, 'Accepted')
    import wind
    import Utilities.track as T
    from Utilities.config import ConfigParser
    N = 70 if c.tier == 'quick' else 500
    stats = {'storms': 0, 'steps': 0, 'steps_outside': 0, 'with_callback': 0, 'not_asked': 0, 'whole_domain': 0}

    def one(g):
        rng = random.Random('%d/%d' % (c.seed, g))
        st = dict.fromkeys(stats, 0)
        d = c.dir('case')
        res = rng.choice([.5, 1., .25, .1, .2, .05, .03, .15])
        margin = rng.choice([1, 2, 3]) * res
        x0, y0 = rng.randint(100, 170), rng.choice([-1, 1]) * rng.randint(8, 25)
        w, h = rng.randint(1, 6) * res, rng.randint(1, 6) * res
        lim = {'xMin': x0, 'xMax': x0 + w, 'yMin': y0, 'yMax': y0 + h}
        prof, field = rng.choice(MODELS)
        # documented default and the one used for single events
        domain = rng.choice(['bounded', 'bounded', 'bounded', 'full'])
        asked = rng.random() < .85
        cb = rng.random() < .5
        rows = []
        for s in range(rng.randint(1, 3)):
            x, y = rng.uniform(x0 - res, x0 + w + res), rng.uniform(y0 - res, y0 + h + res)
            t0, dt, out = rng.randint(790000, 790500), rng.choice([1., 3., .5, 1. / 12]), []
            for q in range(rng.randint(1, 6)):
                out.append((t0 + q * dt, q * dt, round(x, 3), round(y, 3), rng.uniform(2., 40.), rng.uniform(0., 359.),
                            rng.uniform(920., 990.), rng.uniform(1004., 1012.), rng.uniform(15., 60.)))
                x, y = x + rng.uniform(-1.5, 1.5) * res, y + rng.uniform(-1.5, 1.5) * res
            rows.append(out)
        f = os.path.join(d, 'tracks.00000.nc')
        trackenv.write_tracks(f, rows, 0)
        about = {'region': lim, 'resolution': res, 'margin': margin, 'profile': prof, 'field': field, 'domain': domain,
                 'asked': asked, 'callback': cb, 'storms': rows}

        def go(evolution, callback, name):
            p = os.path.join(d, name)
            os.makedirs(p)
            ini = tc.write_ini(os.path.join(d, name + '.ini'), {'Timeseries': {'Windfields': evolution}})
            cfg = ConfigParser()
            cfg.read(ini)
            got, out, dates = [], [], []
            for t in T.ncReadTrackData(f):
                rec = []
                dates.append([minutes(z) for z in t.Datetime])

                def take(time, gust, Ux, Uy, P, lon, lat):
                    rec.append({'t': 'step', 'time': minutes(time), 'x': int(round(lon[0] * 100)), 'y': int(round(lat[0] * 100)),
                                'w': len(lon), 'h': len(lat), 'g': ints(gust, 1000), 'u': ints(Ux, 1000), 'v': ints(Uy, 1000),
                                'p': ints(P, 10)})
                gen = wind.WindfieldGenerator(cfg, margin=margin, resolution=res, profileType=prof, windFieldType=field,
                                              gridLimit=dict(lim), domain=domain, windfieldPath=p)
                r = gen.calculateExtremesFromTrack(t, take if callback else None)[1]
                got.append(rec)
                out.append({'t': 'field', 'g': ints(r[0], 1000), 'p': ints(r[4], 10)})
            made = {}
            for n in sorted(os.listdir(p)):
                made[tuple(int(z) for z in re.findall(r'\d+', n)[:2])] = layers(os.path.join(p, n))
            return got, out, made, dates
        a = c.call(go, False, True, 'plain', timeout=90)
        b = c.call(go, asked, cb, 'out', timeout=90)
        res_ = []
        for s, t in enumerate(rows):
            inside = [i for i, q in enumerate(t) if x0 <= q[2] <= x0 + w and y0 <= q[3] <= y0 + h]
            # what the dates of a track file mean is judged by other checks
            dates = a[1][3][s] if a[0] == 'ok' else []
            cf = {'gx': int(round((x0 - margin) * 100)), 'gy': int(round((y0 - margin) * 100)), 'res': int(round(res * 100)),
                  'nx': int(round((w + 2 * margin) / res)) + 1, 'ny': int(round((h + 2 * margin) / res)) + 1,
                  'env': int(round(t[0][7] * 1000)), 'times': [dates[i] for i in inside] if dates else []}
            if a[0] != 'ok' or b[0] != 'ok':
                ev = [{'t': 'fail', 'what': str((a if a[0] != 'ok' else b)[1])[:600]}]
            else:
                ev = list(a[1][0][s])
                lay = b[1][2].get((s, 0))
                if asked:
                    # a storm that never enters needs no record
                    ev += lay if lay is not None else [{'t': 'none'}] if inside else []
                    ev.append(b[1][1][s])
                elif lay is not None:
                    ev.append({'t': 'extra'})
                if a[1][2]:
                    ev.append({'t': 'extra'})
                if cb:
                    ev.append({'t': 'told', 'same': b[1][0][s] == a[1][0][s]})
            res_.append({'cfg': cf, 'ev': ev, 'about': dict(about, storm=s)})
            st['storms'] += 1
            st['steps'] += len(inside)
            st['steps_outside'] += len(t) - len(inside)
        st['with_callback'] += cb
        st['not_asked'] += not asked
        st['whole_domain'] += domain == 'full'
        shutil.rmtree(d)
        return res_, st, {'about': about}
    traces = []
    for t, st, smp in c.pmap(one, range(N), timeout=700):
        for q in st:
            stats[q] += st[q]
        traces += t
        c.sample(smp)
    n = len(traces)
    ctrl = []
    for t in traces[::3]:
        ks = [i for i, e in enumerate(t['ev']) if e['t'] == 'layer']
        if not ks:
            continue

        def broken(change):
            ev = copy.deepcopy(t['ev'])
            change(ev)
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
        i = c.rng.choice(ks)
        k = c.rng.randrange(len(t['ev'][i]['g']))
        broken(lambda ev: ev[i]['g'].__setitem__(k, ev[i]['g'][k] + 9))
        broken(lambda ev: ev[i]['p'].__setitem__(k, ev[i]['p'][k] + 9))
        broken(lambda ev: ev[i].update(time=ev[i]['time'] + 1))
        broken(lambda ev: ev.pop(ks[-1]))
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Evolution', allt, expect_reject=idx)
    c.judge('Evolution', allt, res, idx)
    c.finish(scenarios=N, **stats)


vf.main(run)
