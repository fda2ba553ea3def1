"""P01: the parallel hazard calculation equals the serial one on every schedule."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import numpy as np

VARS = ['lat', 'lon', 'ari', 'loc', 'scale', 'shp', 'wspd', 'wspdupper', 'wspdlower']


def make_case(c, rng, T, tag):
    """Wind fields and configuration with a domain of T tiles."""
    d = c.dir('case')
    out = os.path.join(d, 'output')
    wf = os.path.join(out, 'windfield')
    os.makedirs(wf)
    os.makedirs(os.path.join(out, 'hazard'))
    # tile layout cols x rows = T
    fact = [(a, T // a) for a in range(1, T + 1) if T % a == 0]
    cols, rows = rng.choice(fact)
    xs, ys = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    nx = (cols - 1) * xs + rng.randint(1, xs)
    ny = (rows - 1) * ys + rng.randint(1, ys)
    res = rng.choice([0.5, 0.25, 1.0])
    mx, my = rng.randint(0, 2), rng.randint(0, 2)
    lon = 110. + res * np.arange(nx + 2 * mx)
    lat = -25. + res * np.arange(ny + 2 * my)
    evd = rng.choice(['emp', 'power', 'GEV', 'GPD'])
    nsim = rng.choice([12, 20])
    g = np.random.RandomState(rng.randrange(2 ** 31))
    files = 0
    for y in range(nsim):
        for k in range(g.randint(1, 3)):
            v = np.round(15 + 20 * g.rand(len(lat), len(lon)) + 3 * g.randn(), 3)
            v[g.rand(len(lat), len(lon)) < 0.15] = 0.
            tc.write_gust(os.path.join(wf, 'gust.%03d-%05d.nc' % (k, y)), lon, lat, v)
            files += 1
    # a confidence range over one sample of all records does not depend on the
    # order in which the records are drawn
    case = dict(dir=d, wf=wf, xs=xs, ys=ys, nx=nx, ny=ny, mx=mx, my=my, evd=evd, tiles=T,
                layout=[cols, rows], ci=rng.random() < 0.4)
    case['ini'] = {
        'Region': {'gridLimit': tc.limits(float(lon[mx]), float(lat[my]),
                                          float(lon[mx + nx - 1]), float(lat[my + ny - 1]))},
        'TrackGenerator': {'NumSimulations': nsim, 'YearsPerSimulation': 1},
        'Hazard': {'MinimumRecords': rng.choice([3, 8]), 'CalculateCI': str(case['ci']),
                   'ExtremeValueDistribution': evd, 'Years': '2,5,10',
                   'SampleSize': nsim if evd == 'GEV' else files,
                   'PercentileRange': 90, 'PlotSpeedUnits': 'mps'}}
    return case


def place(c, case):
    """An output directory of its own over the wind fields of the case."""
    d = c.dir('run')
    os.makedirs(os.path.join(d, 'hazard'))
    os.symlink(case['wf'], os.path.join(d, 'windfield'))
    ini = dict(case['ini'], Output={'Path': d})
    return dict(case, out=d, ini=tc.write_ini(os.path.join(d, 'c.ini'), ini))


def body(case, observe):
    def target(r, n):
        tc.quiet()
        import hazard
        import Utilities.parallel as par
        par.attemptParallel()

        class Small(hazard.TileGrid):
            def __init__(self, gl, lo, la, xstep=case['xs'], ystep=case['ys']):
                super(Small, self).__init__(gl, lo, la, xstep, ystep)
        hazard.TileGrid = Small
        if observe:
            real = hazard.HazardCalculator.calculateHazard

            def calc(self, lim):
                cells = [(y - case['my']) * case['nx'] + (x - case['mx']) + 1
                         for y in range(lim[2], lim[3]) for x in range(lim[0], lim[1])
                         if 0 <= x - case['mx'] < case['nx']] or [0]
                fakempi.event(t='compute', r=r, cells=cells)
                return real(self, lim)
            hazard.HazardCalculator.calculateHazard = calc
        hazard.run(case['ini'])
        return True
    return target


def load(case):
    p = os.path.join(case['out'], 'hazard', 'hazard.nc')
    if not os.path.exists(p):
        return None
    return tc.read_nc(p, VARS)


def codes(v, intern):
    """One code per cell of the result (all fields and the coordinates)."""
    out = []
    try:
        ny, nx = v['loc'].shape
        for j in range(ny):
            for i in range(nx):
                key = (v['lat'][j].tobytes(), v['lon'][i].tobytes(), v['ari'].tobytes(),
                       v['loc'][j, i].tobytes(), v['scale'][j, i].tobytes(),
                       v['shp'][j, i].tobytes()) + tuple(
                           v[k][:, j, i].tobytes() for k in ('wspd', 'wspdupper', 'wspdlower'))
                out.append(intern.setdefault(key, len(intern) + 1))
    except (KeyError, IndexError, ValueError):
        return []
    return out


def run():
    c = vf.Check('P01')
    c.source()
    tc.quiet()
    import hazard
    observe = hasattr(hazard, 'HazardCalculator') and \
        hasattr(hazard.HazardCalculator, 'calculateHazard')
    c.model_check('FarmProtocol', min_states=1000)
    c.model_check('FarmProtocol', 'FarmRefine', min_states=1000)
    c.model_check('TileFarm')
    gen = c.generate('FarmProtocol', 'FarmGen', simulate=400 if c.quick else 3000)
    gen = [g for g in gen if g['cfg']['T'] > 0]
    c.rng.shuffle(gen)
    # cover every (n, T, sync) class first, then the rest
    seen, order, rest = set(), [], []
    for g in gen:
        k = (g['cfg']['n'], g['cfg']['T'], g['cfg']['sync'])
        (rest if k in seen else order).append(g)
        seen.add(k)
    gen = (order + rest)[:150 if c.quick else 1200]
    cases = {}
    for T in sorted(set(g['cfg']['T'] for g in gen)):
        cases[T] = [make_case(c, c.rng, T, T) for _ in range(3 if c.quick else 8)]
        if not any(x['ci'] for x in cases[T]):
            cases[T][-1]['ci'] = True
            cases[T][-1]['ini']['Hazard']['CalculateCI'] = 'True'

    def serial(case):
        case = place(c, case)

        def alone():
            fakempi.no_mpi()
            return body(case, False)(0, 1)
        r = c.call(alone)
        return r, load(case)
    flat = [x for T in cases for x in cases[T]]
    for case, (r, v) in zip(flat, c.pmap(serial, flat)):
        case['intern'] = {}
        case['ref'] = codes(v, case['intern']) if v else []
        if r[0] != 'ok':
            c.violation('the single-process run fails (%s): %s' % (case, r[1]), case)
        elif len(case['ref']) != case['nx'] * case['ny']:
            c.violation('serial hazard file has %d cells, domain has %d'
                        % (len(case['ref']), case['nx'] * case['ny']), case)
        case['ok'] = r[0] == 'ok' and len(case['ref']) == case['nx'] * case['ny']
    jobs = []
    for gi, g in enumerate(gen):
        pool = [x for x in cases[g['cfg']['T']] if x['ok']]
        if pool:
            jobs.append((gi, g, pool[gi % len(pool)]))

    def one(job):
        gi, g, case = job
        T, n, sync = g['cfg']['T'], g['cfg']['n'], g['cfg']['sync']
        case = place(c, case)
        pick = fakempi.guided_picker([e['r'] for e in g['ev']], seed='%d/%d' % (c.seed, gi))
        R = fakempi.run(n, body(case, observe), pick, sync=sync, listing=c.seed + gi,
                        rngseed=c.seed + gi)
        ev = []
        for x in R.trace:
            if x[0] == 'event':
                ev.append(x[2])
            elif x[0] == 'end':
                ev.append({'t': 'end', 'r': x[1], 'ok': x[2] == 'ok'})
        if R.status != 'done':
            ev.append({'t': 'stuck'})
        elif R.leftover:
            ev.append({'t': 'lost'})
        about = {'ranks': n, 'tiles': T, 'rendezvous': sync, 'evd': case['evd'],
                 'confidence range': case['ci'],
                 'layout': case['layout'], 'problem': R.problem(),
                 'schedule': [list(x[:4]) for x in R.trace if x[0] != 'event'][:200]}
        proto = [{'op': x[0], 'r': x[1], 'peer': x[2] if x[0] in ('send', 'recv') else 0}
                 for x in R.trace if x[0] in ('start', 'coll', 'send', 'recv', 'end')]
        return ev, load(case), about, proto, tuple(x[2] for x in R.trace
                                                   if x[0] == 'recv' and x[1] == 0)
    traces, protos, orders = [], [], set()
    stats = dict(buffered=0, rendezvous=0, more_ranks_than_tiles=0, with_confidence_range=0)
    for (gi, g, case), (ev, v, about, proto, got) in zip(jobs, c.pmap(one, jobs, timeout=700)):
        T, n, sync = g['cfg']['T'], g['cfg']['n'], g['cfg']['sync']
        if v is not None:
            ev.append({'t': 'result', 'got': codes(v, case['intern'])})
        traces.append({'cfg': {'n': n, 'ref': case['ref'], 'observed': observe},
                       'ev': ev, 'about': about})
        protos.append({'cfg': g['cfg'], 'ev': proto})
        orders.add((n, T, sync, got))
        stats['rendezvous' if sync else 'buffered'] += 1
        stats['more_ranks_than_tiles'] += n - 1 > T
        stats['with_confidence_range'] += case['ci']
        c.sample(about)
    # controls: corrupt recorded traces, the specification must reject them
    nreal = len(traces)
    ctrl = []
    for t in [t for t in traces if t['cfg']['ref']][:4]:
        for kind in range(3):
            ev = [dict(e) for e in t['ev']]
            if kind == 0:
                for e in ev:
                    if e['t'] == 'result' and e['got']:
                        e['got'] = [e['got'][0] + 1000] + e['got'][1:]
                        break
                else:
                    continue
            elif kind == 1:
                ev = [e for e in ev if not (e['t'] == 'end' and e['r'] == 0)]
            elif kind == 2:
                cs = [e for e in ev if e['t'] == 'compute']
                if not cs:
                    continue
                ev = [cs[0]] + ev
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
    allt = traces + ctrl
    idx = range(nreal, len(allt))
    res = c.trace_check('TileFarm', allt, expect_reject=idx)
    c.judge('TileFarm', allt, res, idx)
    # does the code still follow the specified message exchange? (informative:
    # another exchange with the same observable results is not a violation)
    counted = c.traces
    try:
        pr = c.trace_check('FarmProtocol', protos)
        follow = sum(1 for r in pr if r is None)
    except vf.CheckError:
        follow = -1
    c.traces = counted      # the same runs, not further ones
    c.assumptions += ['processes interact only through messages and files; one process '
                      'runs at a time between communication calls']
    c.finish(runs=nreal, distinct_receive_orders=len(orders),
             runs_following_specified_protocol=follow, tile_computation_observed=observe,
             **stats)


vf.main(run)
