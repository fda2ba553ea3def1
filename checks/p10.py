"""P10: every query on the event database answers exactly its question."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import tc
import fakempi
import shutil

COLS = {'loc': ('tblLocations', ('locId', 'locName')),
        'wind': ('tblWindSpeed', ('locId', 'eventId', 'wspd', 'umax', 'vmax', 'pmin')),
        'event': ('tblEvents', ('eventNumber', 'eventId', 'eventFile', 'eventMaxWind',
                                'eventMinPressure')),
        'track': ('tblTracks', ('locId', 'eventId', 'distClosest')),
        'hazard': ('tblHazard', ('locId', 'returnPeriod', 'wspd', 'wspdLower', 'wspdUpper'))}


def plan(rng):
    """A random history of inserts and queries (values in half units)."""
    nloc, nev = rng.randint(1, 4), rng.randint(1, 6)
    ids = rng.sample(range(1, 40), nloc)
    evs = rng.sample(range(0, 200), nev)
    rps = rng.sample([2, 5, 10, 50, 100], rng.randint(1, 4))
    small = rng.random() < .5           # few distinct values: many ties
    val = (lambda: rng.randint(0, 5)) if small else (lambda: rng.randint(0, 160))
    ops = []
    for i in ids:
        ops.append(('loc', {'id': i, 'name': 1000 + i}))
        for r in rps:
            if rng.random() < .9:
                w = val()
                ops.append(('hazard', {'loc': i, 'rp': r, 'w': w, 'lo': w - rng.randint(0, 4),
                                       'up': w + rng.randint(0, 4)}))
    for k, e in enumerate(evs):
        if rng.random() < .9:
            ops.append(('event', {'num': k, 'ev': e, 'file': 2000 + e, 'mw': val(),
                                  'mp': 1800 + rng.randint(0, 90)}))
        for i in ids + [999]:
            if rng.random() < .85:
                ops.append(('wind', {'loc': i, 'ev': e, 'w': val(), 'u': rng.randint(-90, 90),
                                     'v': rng.randint(-90, 90)}))
            if rng.random() < .85:
                ops.append(('track', {'loc': i, 'ev': e, 'd': val()}))
    rng.shuffle(ops)
    out = []
    every = rng.choice([0.05, 0.3])

    def query():
        i = rng.choice(ids + ids + [777])
        q = rng.choice(['exceeding', 'records', 'passage', 'passagewind', 'returnevents',
                        'levels', 'events'])
        a = {'q': q, 'loc': i, 'v': val() - rng.choice([0, 0, 1]), 'd': val(), 'rp': rng.choice(rps),
             'text': rng.random() < .3}
        return ('query', a)
    known = set()
    for o in ops:
        out.append(o)
        if rng.random() < every:
            out.append(query())
    for _ in range(14):
        out.append(query())
    # a return period the location has no level for is not a question
    good, have = [], set()
    for o in out:
        if o[0] == 'hazard':
            have.add((o[1]['loc'], o[1]['rp']))
        if o[0] == 'loc':
            known.add(o[1]['id'])
        if o[0] == 'query' and o[1]['q'] == 'returnevents' and \
                ((o[1]['loc'], o[1]['rp']) not in have or o[1]['loc'] not in known):
            continue
        good.append(o)
    return good


def execute(ini, ops):
    tc.quiet()
    fakempi.no_mpi()
    import Utilities.parallel as par
    par.attemptParallel()
    import database
    from database import queries as Q
    db = database.HazardDatabase(ini)
    db.execute('PRAGMA synchronous=OFF')
    db.createDatabase()
    ev = []
    dec = {}

    def txt(kind, n):
        s = {'ev': '%03d-%05d' % (n % 7, n), 'file': 'gust.%05d.nc' % n, 'name': 'Place %d' % n}[kind]
        dec[s] = n
        return s

    def num(x):
        if isinstance(x, bytes):
            x = x.decode()
        if x in dec:
            return dec[x]
        try:
            v = float(x) * 2
            return int(round(v)) if abs(v - round(v)) < 1e-9 else -7777
        except (TypeError, ValueError):
            return -8888
    for t, a in ops:
        if t == 'query':
            i = str(a['loc']) if a['text'] else a['loc']
            q, ok, rows = a['q'], True, []
            try:
                if q == 'exceeding':
                    r, names = Q.locationRecordsExceeding(db, i, a['v'] / 2.), \
                        ['locId', 'locName', 'wspd', 'eventId']
                elif q == 'records':
                    r, names = Q.locationRecords(db, i), \
                        ['locId', 'locName', 'wspd', 'umax', 'vmax', 'eventId']
                elif q == 'passage':
                    r, names = Q.locationPassage(db, i, a['d'] / 2.), \
                        ['locId', 'locName', 'eventId', 'distClosest', 'wspd', 'eventFile']
                elif q == 'passagewind':
                    r, names = Q.locationPassageWindSpeed(db, i, a['v'] / 2., a['d'] / 2.), \
                        ['locName', 'wspd', 'umax', 'vmax', 'eventId', 'distClosest', 'maxwind', 'pmin']
                elif q == 'returnevents':
                    r, names = Q.locationReturnPeriodEvents(db, i, a['rp']), \
                        ['locId', 'locName', 'wspd', 'eventId']
                elif q == 'levels':
                    r, names = Q.locationAllReturnLevels(db, i), \
                        ['locId', 'locName', 'returnPeriod', 'wspd', 'wspdLower', 'wspdUpper']
                else:
                    r, names = Q.selectEvents(db), \
                        ['eventNum', 'eventId', 'eventFile', 'eventMaxWind', 'eventMinPressure']
                for k in range(len(r)):
                    row = [num(r[n][k]) for n in names]
                    for j, n in enumerate(names):
                        if n in ('locId', 'returnPeriod', 'eventNum'):
                            row[j] //= 2      # identifiers are not scaled
                    rows.append(row)
            except Exception as e:              # noqa
                ok = False
                rows = []
                err = repr(e)
            ev.append({'t': 'query', 'q': q, 'loc': a['loc'], 'v': a['v'], 'd': a['d'],
                       'rp': a['rp'], 'ok': ok, 'rows': rows})
            if not ok:
                ev[-1]['error'] = err
            continue
        tbl, cols = COLS[t]
        if t == 'loc':
            vals = (a['id'], txt('name', a['name']))
        elif t == 'wind':
            vals = (a['loc'], txt('ev', a['ev']), a['w'] / 2., a['u'] / 2., a['v'] / 2., 900.)
        elif t == 'event':
            vals = (a['num'], txt('ev', a['ev']), txt('file', a['file']), a['mw'] / 2., a['mp'] / 2.)
        elif t == 'track':
            vals = (a['loc'], txt('ev', a['ev']), a['d'] / 2.)
        else:
            vals = (a['loc'], a['rp'], a['w'] / 2., a['lo'] / 2., a['up'] / 2.)
        db.execute('INSERT INTO %s (%s) VALUES (%s)'
                   % (tbl, ','.join(cols), ','.join('?' * len(cols))), vals)
        db.commit()
        ev.append({'t': t, 'row': a})
    return ev


def run():
    c = vf.Check('P10')
    c.source()
    tc.quiet()
    import database.queries                     # noqa: F401
    c.model_check('DbQuery', min_states=1000)
    plans = [plan(c.rng) for _ in range(260 if c.quick else 4000)]

    def one(ops):
        d = c.dir('q')
        ini = tc.write_ini(os.path.join(d, 'c.ini'), {
            'Region': {'gridLimit': tc.limits(110., -20., 120., -10.)},
            'Process': {'DatFile': os.path.join(d, 'files.dat'), 'ExcludePastProcessed': 'False'},
            'Output': {'Path': d}})
        r = c.call(execute, ini, ops)
        shutil.rmtree(d)
        return r
    traces, asked = [], {}
    for ops, r in zip(plans, c.pmap(one, plans)):
        if r[0] != 'ok':
            c.violation('the database cannot be used: %s' % (r[1],), {'history': ops})
            continue
        traces.append({'cfg': {'x': 0}, 'ev': r[1], 'about': {'inserts': sum(o[0] != 'query' for o in ops)}})
        for e in r[1]:
            if e['t'] == 'query':
                asked[e['q']] = asked.get(e['q'], 0) + 1
                if e['rows']:
                    c.sample(e)
    ctrl = []
    for t in traces[:25]:
        for kind in range(4):
            ev = [dict(e) for e in t['ev']]
            qs = [e for e in ev if e['t'] == 'query' and
                  (len(e['rows']) > 1 if kind == 3 else e['rows'])]
            if not qs:
                continue
            e = qs[kind % len(qs)]
            rows = [list(r) for r in e['rows']]
            if kind == 0:
                e['rows'] = rows[1:]
            elif kind == 1:
                e['rows'] = rows + [rows[-1]]
            elif kind == 2:
                rows[0][-1] += 1
                e['rows'] = rows
            else:
                k = {'exceeding': 2, 'records': 2, 'passagewind': 1, 'returnevents': 2, 'levels': 2,
                     'events': 3}.get(e['q'])
                if k is None or rows[0][k] == rows[-1][k]:
                    continue
                e['rows'] = rows[::-1]
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
    allt = traces + ctrl
    idx = range(len(traces), len(allt))
    res = c.trace_check('DbQuery', allt, expect_reject=idx)
    c.judge('DbQuery', allt, res, idx)
    c.finish(queries_answered=sum(asked.values()), queries_by_kind=asked)


vf.main(run)
