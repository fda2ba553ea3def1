"""P03: pipeline stages run once, in dependency order, never overlapping."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import sched
import tc
import types
import logging
import numpy as np

ACTION = {'download': 'DownloadData', 'process': 'DataProcess', 'stat': 'ExecuteStat',
          'tracks': 'ExecuteTrackGenerator', 'wind': 'ExecuteWindfield',
          'hazard': 'ExecuteHazard', 'plotdata': 'PlotData', 'database': 'CreateDatabase',
          'evaluate': 'ExecuteEvaluate', 'plothazard': 'PlotHazard'}
PAR = ('tracks', 'wind', 'hazard', 'database', 'evaluate')
STAT = ['kdeGenesisDate', 'kdeOrigin', 'cdfCellBearing', 'cdfCellSpeed', 'cdfCellPressure',
        'calcCellStatistics']
PLOTS = ['PlotPressure', 'PlotBearing', 'PlotSpeed', 'PlotLonLat', 'PlotFrequency', 'PlotDays']
DIRS = ['tracks', 'hazard', 'windfield', 'plots', 'plots/hazard', 'plots/stats', 'log',
        'process', 'process/timeseries', 'process/dat']


class Broken(Exception):
    pass


def stubs(case, r):
    """Stand-ins for the stage implementations that record their steps."""
    seen = set()

    def step(stage, name, conf, once=False):
        if once and (stage, name) in seen:
            return
        seen.add((stage, name))
        if conf is None:
            ok = True
        else:
            ok = isinstance(conf, str) and os.path.abspath(conf) == os.path.abspath(case['ini'])
        fakempi.point(stage)
        bad = case['fail'] == [stage, name] and case['failrank'] in (r, -1)
        fakempi.event(t='fail' if bad else 'step', s=stage, step=name, r=r, conf=bool(ok),
                      dirs=all(os.path.isdir(os.path.join(case['out'], d)) for d in DIRS))
        if bad:
            raise case['exc']('stage %s cannot go on' % stage)
        fakempi.point(stage)

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(kw)
        sys.modules[name] = m
        if '.' in name:
            p, a = name.rsplit('.', 1)
            if p in sys.modules:
                setattr(sys.modules[p], a, m)
        return m

    def both(stage):
        def run(configFile, *a, **k):
            step(stage, 'start', configFile)
            step(stage, 'finish', configFile)
        return run
    mod('TrackGenerator', run=both('tracks'))
    mod('wind', run=both('wind'))
    mod('hazard', run=both('hazard'))
    mod('database', run=both('database'))
    mod('Evaluate', run=both('evaluate'))

    class DataProcess(object):
        def __init__(self, configFile, *a, **k):
            self.c = configFile

        def processData(self, *a, **k):
            step('process', 'processData', self.c)

    class CalcTrackDomain(object):
        def __init__(self, configFile):
            self.c = configFile

        def calcDomainFromFile(self):
            return {'xMin': 0., 'xMax': 1., 'yMin': 0., 'yMax': 1.}

    class Stat(object):
        def __init__(self, configFile, *a, **k):
            self.c = configFile

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return lambda *a, **k: (step('stat', name, self.c)
                                    if name in STAT + ['cdfCellSize'] else None)

    class Auto(object):
        def __init__(self, configFile, *a, **k):
            self.c = configFile

        def plotMap(self, *a, **k):
            step('plothazard', 'plotMap', self.c)

        def plotCurves(self, *a, **k):
            step('plothazard', 'plotCurves', self.c)

    def plotclass(name):
        class P(object):
            def __init__(self, *a, **k):
                pass

            def __getattr__(self, attr):
                if attr.startswith('__'):
                    raise AttributeError(attr)
                return lambda *a, **k: step('plotdata', name, None, once=True)
        return P
    mod('DataProcess')
    mod('DataProcess.DataProcess', DataProcess=DataProcess)
    mod('DataProcess.CalcTrackDomain', CalcTrackDomain=CalcTrackDomain)
    mod('StatInterface')
    mod('StatInterface.StatInterface', StatInterface=Stat)
    mod('PlotInterface')
    mod('PlotInterface.AutoPlotHazard', AutoPlotHazard=Auto)
    mod('PlotInterface.plotStats', **{n: plotclass(n) for n in PLOTS})
    import Utilities.datasets as ds

    def load(configFile, *a, **k):
        step('download', 'load', configFile)
    ds.loadDatasets = load

    class Data(object):
        """A data set that has (or has not) to be fetched."""

        def __init__(self, name, there):
            self.name, self.there = name, there
            self.filename = name + '.csv'
            self.url = self.path = 'nowhere'

        def isDownloaded(self):
            return self.there

        def download(self, *a, **k):
            step('download', self.name, None)
            self.there = True
    ds.DATASETS = [Data('have', True), Data('get1', False), Data('get2', False)]


def body(case):
    def target(r, n):
        stubs(case, r)
        told = []

        class H(logging.Handler):
            def emit(self, rec):
                told.append(rec.getMessage()[:300])
        import tcrm
        h = H(logging.ERROR)
        logging.getLogger().addHandler(h)
        sys.argv = ['tcrm.py', '-c', case['ini']] + (['-d'] if case['debug'] else [])
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        try:
            tcrm.startup()
        except SystemExit as e:
            if e.code not in (0, None):
                told.append(50)
        except Exception:                       # noqa (debugging runs let it pass)
            told.append(50)
        if told:
            fakempi.event(t='told', what=[str(x) for x in told][-3:])
        return True
    return target


def make_case(c, on, fail, failrank, debug, rmw, exc):
    d = c.dir('pipe')
    out = os.path.join(d, 'output')
    sections = {'Actions': {ACTION[s]: s in on for s in ACTION},
                'Output': {'Path': out},
                'RMW': {'GetRMWDistFromInputData': str(rmw)},
                'Logging': {'LogFile': os.path.join(d, 'tcrm.log'), 'LogLevel': 'INFO',
                            'Verbose': 'False', 'ProgressBar': 'False', 'Datestamp': 'False'}}
    ini = tc.write_ini(os.path.join(d, 'c.ini'), sections)
    if 'plotdata' in on:
        p = os.path.join(out, 'process')
        os.makedirs(p)
        for n in ('pressure_rate', 'all_pressure', 'bearing_rate', 'all_bearing', 'speed_rate',
                  'all_speed'):
            np.savetxt(os.path.join(p, n), np.arange(5.), header='x', comments='%')
        np.savetxt(os.path.join(p, 'frequency'), np.ones((3, 2)), delimiter=',', comments='%')
        for n in ('cyclone_tracks', 'jday_obs', 'jday_genesis'):
            np.savetxt(os.path.join(p, n), np.ones((3, 3)), delimiter=',', comments='%')
    return dict(ini=ini, out=out, fail=fail, failrank=failrank, debug=debug, exc=exc)


def required(rmw):
    req = {s: ['start', 'finish'] for s in PAR}
    req.update(download=['load', 'get1', 'get2'], process=['processData'],
               stat=STAT + (['cdfCellSize'] if rmw else []), plotdata=PLOTS,
               plothazard=['plotMap', 'plotCurves'])
    return req


def run():
    c = vf.Check('P03')
    c.source(exts=('Utilities._akima',))
    import warnings
    warnings.simplefilter('ignore')
    import tcrm                                 # noqa: F401
    c.model_check('Pipeline', min_states=10000)
    gen = c.generate('Pipeline', 'PipelineGen', simulate=150 if c.quick else 1500, depth=400)
    full = [s for s in ACTION]
    # every single stage off, every pair of dependent stages, and everything, first
    extra = [{'n': n, 'on': list(on), 'order': []} for n in (1, 3)
             for on in [full] + [[s for s in full if s != x] for x in full]]
    c.rng.shuffle(gen)
    gen = extra[:1] + [g for p in zip(extra[1:], gen) for g in p] + gen[len(extra) - 1:]
    jobs = []
    # every step of every stage fails once, with an I/O error, in a run of everything
    point = [(s, x) for s in full for x in required(True)[s]]
    gen = [{'n': c.rng.randint(1, 3), 'on': list(full), 'order': []} for _ in point] + gen
    for gi, g in enumerate(gen[:len(point) + (150 if c.quick else 1500)]):
        on, n = g['on'], g['n']
        fail, failrank = None, -1
        rmw = c.rng.random() < .5
        req = required(rmw)
        if gi < len(point):
            rmw, fail = True, list(point[gi])
            failrank = c.rng.choice([-1] + list(range(n))) if fail[0] in PAR else -1
        elif on and c.rng.random() < .3:
            s = c.rng.choice(on)
            fail = [s, c.rng.choice(req[s])]
            failrank = c.rng.choice([-1] + list(range(n))) if s in PAR else -1
        exc = c.rng.choice([Broken, IOError, ValueError, KeyError, ImportError, ZeroDivisionError])
        if gi < len(point) or (fail and fail[0] == 'download' and fail[1] != 'load'):
            exc = IOError
        jobs.append((gi, g, fail, failrank, c.rng.random() < .1, c.rng.random() < .5, rmw, exc))

    def one(job):
        gi, g, fail, failrank, debug, sync, rmw, exc = job
        on, n = g['on'], g['n']
        case = make_case(c, on, fail, failrank, debug, rmw, exc)
        pick = fakempi.guided_picker(g['order'], seed='%d/%d' % (c.seed, gi))
        R = fakempi.run(n, body(case), pick, sync=sync, rngseed=c.seed + gi, timeout=60)
        ev = []
        for x in R.trace:
            if x[0] == 'event':
                ev.append(x[2])
            elif x[0] == 'end':
                ev.append({'t': 'end', 'r': x[1], 'ok': x[2] == 'ok'})
        if R.status != 'done':
            ev.append({'t': 'stuck'})
        about = {'processes': n, 'stages': on, 'fail': fail, 'with': exc.__name__, 'problem': R.problem(),
                 'events': len(ev)}
        return {'cfg': {'n': n, 'on': on, 'req': required(rmw)}, 'ev': ev, 'about': about}
    traces = c.pmap(one, jobs, timeout=700)
    stats = dict(failing_runs=0, multi_process=0, stages_run=0, debug_runs=0)
    for job, t in zip(jobs, traces):
        stats['failing_runs'] += t['about']['fail'] is not None
        stats['multi_process'] += t['cfg']['n'] > 1
        stats['stages_run'] += len(t['cfg']['on'])
        stats['debug_runs'] += job[4]
        c.sample(t['about'])
    ctrl = []
    good = [t for t in traces if len(t['cfg']['on']) > 3 and not t['about']['fail']]
    for t in good[:6]:
        steps = [i for i, e in enumerate(t['ev']) if e['t'] == 'step']
        if not steps:
            continue
        k = steps[len(steps) // 2]
        ctrl.append({'cfg': t['cfg'], 'ev': [e for i, e in enumerate(t['ev']) if i != k]})
        ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:k + 1] + [t['ev'][k]] + t['ev'][k + 1:]})
        ctrl.append({'cfg': dict(t['cfg'], on=t['cfg']['on'][1:]), 'ev': t['ev']})
        if {'tracks', 'wind'} <= set(t['cfg']['on']):
            a = [e for e in t['ev'] if e.get('s') == 'wind']
            b = [e for e in t['ev'] if e.get('s') != 'wind']
            ctrl.append({'cfg': t['cfg'], 'ev': a + b})
    for t in [t for t in traces if t['about']['fail']][:3]:
        if any(e['t'] == 'fail' for e in t['ev']):
            ctrl.append({'cfg': t['cfg'], 'ev': [e for e in t['ev'] if e['t'] != 'told']})
    allt = traces + ctrl
    idx = range(len(traces), len(allt))
    res = c.trace_check('Pipeline', allt, expect_reject=idx)
    c.judge('Pipeline', allt, res, idx)
    c.assumptions += ['stage implementations are replaced by stand-ins that record their steps; '
                      'the control program around them is the real one']
    c.finish(runs=len(traces), **stats)


vf.main(run)
