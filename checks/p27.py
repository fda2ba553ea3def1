"""P27: tracks exported to shape files keep every position and every value."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import tc
import trackenv
import datetime
import random
import runpy
import shutil
import numpy as np

# columns of the attribute table with their decimals
MODEL = [('CycloneNum', 0), ('TimeElapse', 2), ('Longitude', 4), ('Latitude', 4), ('Speed', 4), ('Bearing', 4),
         ('CentralPre', 3), ('EnvPressur', 3), ('rMax', 4), ('Category', 0)]
SEEN = [('Indicator', 0), ('TCID', 0), ('Year', 0), ('Month', 0), ('Day', 0), ('Hour', 0), ('Minute', 0),
        ('TElapsed', 2), ('Longitude', 2), ('Latitude', 2), ('Speed', 1), ('Bearing', 1), ('Pcentre', 1),
        ('MaxWind', 1), ('rMax', 1), ('Penv', 1), ('Category', 0)]
EVENT = [('TCID', 0), ('Year', 0), ('Month', 0), ('Day', 0), ('Hour', 0), ('Minute', 0), ('Age', 2), ('MinCP', 2),
         ('MaxWind', 1)]
NAMES = {'point': '_pt', 'line': '_line', 'whole': '_dissolve'}


def columns(form, model):
    return MODEL if model else EVENT if form == 'whole' else SEEN


def read(path, cols):
    """The features of a shape file."""
    import shapefile
    out = []
    with shapefile.Reader(path) as r:
        names = [f[0] for f in r.fields[1:]]
        for s in r.shapeRecords():
            pts = [[int(round(float(q) * 1e6)) for q in p[:2]] for p in s.shape.points]
            at = (list(getattr(s.shape, 'parts', [])) or [0]) + [len(pts)]
            v = [s.record[names.index(n)] for n, _ in cols]
            out.append({'t': 'feature', 'parts': [pts[a:b] for a, b in zip(at, at[1:])],
                        'v': [int(round(float(q) * 10 ** k)) if q is not None else -99999 for q, (_, k) in zip(v, cols)]})
    return out


def run():
    c = vf.Check('P27')
    c.source()
    tc.quiet()
    c.model_check('TrackExportMC', min_states=1000)
    for v in ('Drops', 'EastOnly', 'OneCut', 'NoSingle'):
        c.refute('TrackExportMC', 'TrackExportMC' + v, 'Accepted')
    import Utilities.tracks2shp as S
    import Utilities.track as T
    N = 150 if c.tier == 'quick' else 1500
    stats = {'storms': 0, 'records': 0, 'single_records': 0, 'crossings': 0, 'storms_with_two_crossings': 0,
             'observed': 0, 'as_script': 0}

    def one(g):
        rng = random.Random('%d/%d' % (c.seed, g))
        st = dict.fromkeys(stats, 0)
        d = c.dir('case')
        model = rng.random() < .5
        storms = []
        for k in range(rng.randint(1, 5)):
            n = rng.choice([1, 1, 2, 3, rng.randint(4, 12)])
            x = rng.choice([rng.uniform(20., 340.), rng.uniform(0., 4.), rng.uniform(356., 359.9)])
            y = rng.choice([-1, 1]) * rng.uniform(3., 30.)
            step = rng.choice([.3, 2., 4.])
            rows, h, age = [], rng.randint(700000, 900000), rng.choice([0., 0., 6., 12.5])
            for q in range(n):
                pc = rng.choice([rng.uniform(890., 1012.), float(rng.choice([930, 955, 970, 985, 999]))])
                pc = round(pc, 1)
                rows.append((h + age, age, round(x, 4), round(y, 4), round(rng.uniform(0., 120.), 2), round(rng.uniform(0., 359.), 2),
                             pc, round(rng.uniform(1000., 1019.), 2), round(rng.uniform(5., 150.), 2)))
                age += rng.choice([1., 3., 6., .5])
                x = (x + rng.uniform(-step, step)) % 360.
                y = max(-60., min(60., y + rng.uniform(-2., 2.)))
            storms.append(rows)

        def tracks():
            if model:
                f = os.path.join(d, 'tracks.nc')
                trackenv.write_tracks(f, storms, 0)
                return T.ncReadTrackData(f)
            out = []
            for k, rows in enumerate(storms):
                a = np.empty(len(rows), dtype={'names': T.trackFields, 'formats': [z if z != datetime.datetime else 'O' for z in T.trackTypes]})
                r2 = random.Random('%d/%d/%d' % (c.seed, g, k))
                for q, r in enumerate(rows):
                    w = datetime.datetime(1900, 1, 1) + datetime.timedelta(hours=r[0])
                    a[q] = (int(q == 0), k + 1, w.year, w.month, w.day, w.hour, w.minute, r[1], w) + r[2:7] + (
                        round(r2.uniform(5., 90.), 1), r[8], r[7])
                out.append(T.Track(a))
            return out
        script = model and g % 5 == 0
        order = ['point', 'line', 'whole']
        if not script:
            rng.shuffle(order)
            order = order[:rng.randint(1, 3)]
        about = {'simulated': model, 'storms': storms, 'exports': order, 'script': script}

        def export():
            t = tracks()
            keep = [{k: [float(z) for z in q.data[k]] for k in q.data.dtype.names if k != 'Datetime'} for q in t]
            kept = True
            if script:
                ini = tc.write_ini(os.path.join(d, 'c.ini'), {'Logging': {'LogFile': os.path.join(d, 'log')}})
                sys.argv = ['tracks2shp.py', '-c', ini, '-f', os.path.join(d, 'tracks.nc')]
                runpy.run_path(S.__file__, run_name='__main__')
            else:
                S.add_category(t)
                for form in order:
                    p = os.path.join(d, 'tracks%s.shp' % NAMES[form])
                    if form == 'point':
                        S.tracks2point(t, p, netcdf_format=model)
                    else:
                        S.tracks2line(t, p, dissolve=form == 'whole', netcdf_format=model)
                now = [{k: [float(z) for z in q.data[k]] for k in q.data.dtype.names if k != 'Datetime'} for q in t]
                for a, b in zip(keep, now):
                    kept &= all(b.get(k) == a[k] for k in a)
            out = {}
            for form in order:
                out[form] = read(os.path.join(d, 'tracks%s.shp' % NAMES[form]), columns(form, model))
            return keep, out, kept
        q = c.call(export, timeout=60)
        if q[0] == 'ok':
            keep, out, kept = q[1]
        else:
            keep, out, kept = c.call(lambda: [{k: [float(z) for z in q.data[k]] for k in q.data.dtype.names if k != 'Datetime'}
                                              for q in tracks()])[1], {}, True
        src = (['CycloneNumber', 'TimeElapsed', 'Longitude', 'Latitude', 'Speed', 'Bearing', 'CentralPressure', 'EnvPressure', 'rMax']
               if model else [n for n in T.trackFields if n != 'Datetime'])
        dec = [k for _, k in (MODEL if model else SEEN)]
        recs = [[{'x': int(round(t['Longitude'][n] * 1e6)), 'y': int(round(t['Latitude'][n] * 1e6)),
                  'p': int(round(t['CentralPressure'][n] * 1e3)),
                  'a': [int(round(t[s][n] * 10 ** k)) for s, k in zip(src, dec)]} for n in range(len(t['Longitude']))] for t in keep]
        res = []
        for form in (order if q[0] == 'ok' else order[:1]):
            ev = out[form] + [{'t': 'end', 'kept': kept}] if q[0] == 'ok' else [{'t': 'fail', 'what': str(q[1])[:600]}]
            res.append({'cfg': {'form': form, 'model': model, 'slack': [int(k > 0) for _, k in columns(form, model)], 'storms': recs}, 'ev': ev, 'about': dict(about, form=form)})
        for t in recs:
            far = sum(abs(a['x'] - b['x']) > 180000000 for a, b in zip(t, t[1:]))
            st['storms'] += 1
            st['records'] += len(t)
            st['single_records'] += len(t) == 1
            st['crossings'] += far
            st['storms_with_two_crossings'] += far > 1
        st['observed'] += not model
        st['as_script'] += script
        shutil.rmtree(d)
        return res, st, {'about': about, 'events': res[0]['ev'][:2]}
    traces = []
    for t, st, smp in c.pmap(one, range(N), timeout=700):
        for q in st:
            stats[q] += st[q]
        traces += t
        c.sample(smp)
    n = len(traces)
    ctrl = []
    for t in traces[::3]:
        ks = [i for i, e in enumerate(t['ev']) if e['t'] == 'feature' and e['parts'] and e['parts'][0]]
        if not ks:
            continue

        def broken(change):
            import copy
            ev = copy.deepcopy(t['ev'])
            change(ev)
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
        i = c.rng.choice(ks)
        k = c.rng.randrange(len(t['ev'][i]['v']))
        broken(lambda ev: ev[i]['v'].__setitem__(k, ev[i]['v'][k] + 3))
        broken(lambda ev: ev[i]['parts'][0][0].__setitem__(1, ev[i]['parts'][0][0][1] + 5))
        broken(lambda ev: ev.pop(ks[-1]))
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('TrackExport', allt, expect_reject=idx)
    c.judge('TrackExport', allt, res, idx)
    c.finish(scenarios=N, **stats)


vf.main(run)
