"""P12: configuration lookups."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import tc
import configparser
import shutil

# declared types of the options (user guide)
TYPES = {k: t for t, ks in {
    'bool': '''
        Actions/createdatabase Actions/dataprocess Actions/downloaddata Actions/executeevaluate
        Actions/executehazard Actions/executestat Actions/executetrackgenerator Actions/executewindfield
        Actions/plotdata Actions/plothazard DataProcess/filterseasons Hazard/calculateci Hazard/smoothplots
        Logging/datestamp Logging/progressbar Logging/verbose Process/excludepastprocessed
        RMW/getrmwdistfrominputdata Timeseries/extract Timeseries/windfields WindfieldInterface/plotoutput'''.split(),
    'str': '''
        DataProcess/inputfile DataProcess/source Hazard/extremevaluedistribution Hazard/plotspeedunits
        Input/landmask Input/locationfile Input/mslpfile Input/mslpvariablename Logging/logfile
        Logging/loglevel Output/path Process/datfile Region/localityname StatInterface/kde2dtype
        StatInterface/kdetype TCRM/fielddelimiter TCRM/pressureunits TCRM/speedunits Timeseries/locationfile
        Timeseries/stationid WindfieldInterface/domain WindfieldInterface/profiletype
        WindfieldInterface/source WindfieldInterface/trackfile WindfieldInterface/trackpath
        WindfieldInterface/windfieldtype'''.split(),
    'int': '''
        DataProcess/startseason Hazard/minimumrecords Hazard/percentilerange Hazard/samplesize
        Region/localityid StatInterface/minsamplescell TCRM/numberofheadinglines
        TrackGenerator/numsimulations TrackGenerator/numtimesteps TrackGenerator/seasonseed
        TrackGenerator/trackseed'''.split(),
    'list': '''
        Hazard/years Input/mslpgrid TCRM/columns'''.split(),
    'float': '''
        RMW/mean RMW/sigma StatInterface/kdestep TrackGenerator/timestep WindfieldInterface/beta
        WindfieldInterface/beta1 WindfieldInterface/beta2 WindfieldInterface/margin
        WindfieldInterface/resolution WindfieldInterface/thetamax'''.split(),
    'dict': '''
        Region/gridinc Region/gridlimit Region/gridspace StatInterface/gridinc StatInterface/gridspace'''.split(),
}.items() for k in ks}
OWN = ['Own/alpha', 'Own/beta', 'IBTRACS/dateformat', 'Own/path', 'action/dataprocess', 'hazard/years', 'Own/gone']
TEXTS = {'bool': ['True', 'False'], 'int': ['0', '7', '-3', '1981'], 'float': ['0.5', '2', '-1.25', '1e-3', '0'],
         'list': ['1,2,3', 'A', 'x,y'], 'dict': ["{'x':1.0,'y':0.5}", "{'xMin':110,'xMax':130,'yMin':-30,'yMax':-10}"],
         'str': ['output', 'input', '/data/run 1', 'C:\\x', '1981-2010', 'a=b', '%Y-%m-%d', 'list', '50%', 'max',
                 'input/list', '007', '10:30', 'GEV', 'x;y', 'ü', 'None5', 'id']}
MALFORMED = {'int': ['abc', '5 km', '1,2'], 'float': ['abc', '0.5 deg', '1,5'], 'dict': ["{'x':1.0", '{x']}
KINDS = ['get', 'int', 'float', 'bool', 'eval', 'items', 'cnf-none', 'cnf-str', 'cnf-bool', 'cnf-int', 'cnf-float',
         'cnf-dict', 'cnf-list']
BOOLS = {'1': True, 'yes': True, 'true': True, 'on': True, '0': False, 'no': False, 'false': False, 'off': False}
FALL = {'get': 'zz', 'int': 77, 'float': 7.5, 'bool': True, 'eval': None, 'items': None, 'cnf-none': None,
        'cnf-str': 'zz', 'cnf-bool': True, 'cnf-int': 77, 'cnf-float': 7.5, 'cnf-dict': {'q': 1}, 'cnf-list': ['q']}


def literal(t):
    import ast
    try:
        return ast.literal_eval(t)
    except (ValueError, SyntaxError):
        return t


def parse(kind, text, typ):
    """Canonical typed value of a text, by the documented meaning."""
    try:
        if kind == 'get' or kind == 'cnf-str':
            return 'S ' + text
        if kind in ('int', 'cnf-int'):
            return 'I %d' % int(text)
        if kind in ('float', 'cnf-float'):
            return 'F %r' % float(text)
        if kind in ('bool', 'cnf-bool'):
            return 'B %r' % BOOLS[text.lower()]
        if kind in ('eval', 'cnf-dict'):
            return 'E %r' % (eval(text, {}),)
        if kind == 'cnf-list':
            return 'E %r' % (text.split(','),)
        if kind == 'cnf-none':
            v = literal(text)
            return ('S ' + v) if isinstance(v, str) else 'E %r' % (v,)
        if kind == 'items':
            if typ == 'bool':
                return 'B %r' % (text == 'True')
            if typ == 'int':
                return 'I %d' % int(text)
            if typ == 'float':
                return 'F %r' % float(text)
            if typ == 'list':
                return 'E %r' % (text.split(','),)
            if typ == 'dict':
                return 'E %r' % (eval(text, {}),)
            return 'S ' + text
    except Exception:
        return 'error'


def canon(kind, v, typ):
    if kind in ('get', 'cnf-str'):
        return 'S %s' % (v,)
    if kind in ('int', 'cnf-int'):
        return 'I %d' % v if type(v) is int else 'wrong type %r' % (v,)
    if kind in ('float', 'cnf-float'):
        return 'F %r' % v if type(v) is float else 'wrong type %r' % (v,)
    if kind in ('bool', 'cnf-bool'):
        return 'B %r' % v if type(v) is bool else 'wrong type %r' % (v,)
    if kind == 'items':
        if typ == 'bool' and type(v) is bool:
            return 'B %r' % v
        if typ == 'int' and type(v) is int:
            return 'I %d' % v
        if typ == 'float' and type(v) is float:
            return 'F %r' % v
        if typ in ('list', 'dict') and not isinstance(v, str):
            return 'E %r' % (v,)
        if typ not in ('bool', 'int', 'float', 'list', 'dict'):
            return 'S %s' % (v,)
        return 'wrong type %r' % (v,)
    if kind == 'cnf-none' and isinstance(v, str):
        return 'S ' + v
    return 'E %r' % (v,)


def segment(d, ops):
    from Utilities import config as C
    ev = []
    cp = C.ConfigParser()
    for op in ops:
        k = op['t']
        if 'k' in op:
            sec, opt = op['k'].split('/', 1)
        if k == 'read':
            p = os.path.join(d, op['f'] + '.ini') if op['f'] else None
            try:
                C.ConfigParser().read(p)
                ok = True
            except Exception:
                ok = False
            ev.append(dict(op, ok=ok))
        elif k == 'set':
            try:
                cp.set(sec, op['name'], op['value'])
                ok = True
            except Exception:
                ok = False
            ev.append({'t': 'set', 'k': op['k'], 'text': op['text'], 'ok': ok})
        elif k == 'write':
            try:
                with open(os.path.join(d, op['f'] + '.ini'), 'w') as fh:
                    cp.write(fh)
                ok = True
            except Exception:
                ok = False
            ev.append(dict(op, ok=ok))
        elif k == 'has':
            ev.append({'t': 'has', 'k': op['k'], 'yes': bool(cp.has_option(sec, op['name']))})
        elif k == 'get':
            kind, name, fb, typ = op['kind'], op['name'], op['fallback'], op['type']
            x = C.ConfigParser()
            kw = {'fallback': FALL[kind]} if fb else {}
            try:
                if kind == 'get':
                    v = x.get(sec, name, **kw)
                elif kind == 'int':
                    v = x.getint(sec, name, **kw)
                elif kind == 'float':
                    v = x.getfloat(sec, name, **kw)
                elif kind == 'bool':
                    v = x.getboolean(sec, name, **kw)
                elif kind == 'eval':
                    v = x.geteval(sec, name)
                elif kind == 'items':
                    v = dict(x.items(sec))[name.lower()]
                else:
                    f = op['file']
                    v = C.cnfGetIniValue(os.path.join(d, f + '.ini') if f else None, sec, name, FALL[kind])
                got = canon(kind, v, typ)
            except Exception:
                got = 'error'
            ev.append({'t': 'get', 'k': op['k'], 'kind': kind + ('' if kind != 'items' else ':' + typ), 'got': got,
                       'fb': canon(kind, FALL[kind], typ) if fb else ''})
    return ev


def run():
    c = vf.Check('P12')
    c.source()
    tc.quiet()
    c.model_check('ConfigMC', min_states=1000)
    from Utilities import config as C
    # the built-in defaults, read with the standard parser
    dp = configparser.RawConfigParser()
    dp.read_string(C.DEFAULTS)
    defaults = {'%s/%s' % (s, o): v for s in dp.sections() for o, v in dp.items(s)}

    def case(o):
        return ''.join(ch.upper() if c.rng.random() < .4 else ch for ch in o)

    def text(k):
        t = TYPES.get(k, 'str')
        if k in OWN and c.rng.random() < .4:
            t = c.rng.choice(sorted(TEXTS))
        return c.rng.choice(TEXTS[t])
    jobs = []
    N = 500 if c.quick else 2500
    for n in range(N):
        d = c.dir('case')
        keys = c.rng.sample(sorted(TYPES), c.rng.randint(4, 24)) + c.rng.sample(OWN, c.rng.randint(1, 5))
        files = {}
        bad = {}
        for f in ('u', 'v')[:c.rng.randint(1, 2)]:
            m = {k: text(k) for k in keys if c.rng.random() < .6 and k != 'Own/gone'}
            typed = [k for k in m if TYPES.get(k) in MALFORMED]
            if typed and c.rng.random() < .2:        # a value that does not have its type
                k = c.rng.choice(typed)
                m[k] = c.rng.choice(MALFORMED[TYPES[k]])
                bad.setdefault(k.split('/')[0], set()).add(k)
            files[f] = m
            with open(os.path.join(d, f + '.ini'), 'w') as fh:
                for s in sorted({k.split('/')[0] for k in m}):
                    fh.write('[%s]\n' % s)
                    for k in m:
                        if k.split('/')[0] == s:
                            if c.rng.random() < .2:
                                fh.write('# %s=comment\n' % k.split('/')[1])
                            fh.write('%s%s%s\n' % (case(k.split('/')[1]), c.rng.choice(['=', ' = ', '= ']), m[k]))
        probe = keys + c.rng.sample(sorted(defaults), 5)
        segs = []
        written = set()
        for s in range(c.rng.randint(1, 3)):
            ops, read = [], None
            known = {k.split('/')[0] for k in defaults}
            for i in range(c.rng.randint(4, 25)):
                k = c.rng.choice(probe)
                o = c.rng.random()
                if ops and ops[-1]['t'] == 'set' and c.rng.random() < .6:
                    # look at what was just set
                    k, o = ops[-1]['k'], max(o, .21)
                sec = k.split('/')[0]
                if (i == 0 and o < .85) or o < .06:
                    # a first read after values were set is left out: which of the two wins is not laid down
                    late = any(q['t'] == 'set' for q in ops)
                    f = read or c.rng.choice(([] if late else sorted(files) + sorted(written)) + ['missing', ''])
                    ops.append({'t': 'read', 'f': f})
                    if f in files:
                        read = f
                        known |= {q.split('/')[0] for q in files[f]}
                    elif f in written:
                        read = f
                        known |= {q.split('/')[0] for q in probe}
                elif o < .16 and k in keys and sec in known - {'hazard', 'action'} and k != 'Own/gone':
                    if c.rng.random() < .3 and TYPES.get(k) in ('int', 'float'):
                        v = {'int': 12, 'float': 3.25}[TYPES[k]]
                        t = str(v)
                    elif k in ('Input/mslpgrid', 'TCRM/columns') and c.rng.random() < .5:
                        v = c.rng.choice([['p', 'q'], ['pq'], ['a', 'b', 'c']])
                        t = ','.join(v)
                    else:
                        v = t = text(k)
                    if sec in ('Own', 'TCRM', 'Process') and read in written:
                        continue
                    ops.append({'t': 'set', 'k': k, 'name': case(k.split('/')[1]), 'value': v, 'text': t})
                elif o < .2 and c.rng.random() < .7:
                    ops.append({'t': 'write', 'f': 'w%d' % (len(written) + 1)})
                    written.add(ops[-1]['f'])
                elif o < .3:
                    ops.append({'t': 'has', 'k': k, 'name': case(k.split('/')[1])})
                else:
                    kind = c.rng.choice(KINDS)
                    if k in bad.get(sec, ()) and c.rng.random() < .5:
                        kind = 'items'
                    if kind == 'items' and (k not in keys or bad.get(sec, {k}) != {k}):
                        kind = 'get'
                    if TYPES.get(k) in ('int', 'float') and kind in ('eval', 'cnf-dict', 'bool', 'cnf-bool', 'cnf-list'):
                        kind = 'items' if bad.get(sec, {k}) == {k} else 'get'
                    if TYPES.get(k) == 'float' and kind in ('int', 'cnf-int'):
                        kind = 'float'
                    cnf = kind.startswith('cnf')
                    fb = cnf or (kind not in ('eval', 'items') and c.rng.random() < .5)
                    if cnf and not read:
                        fl = ''
                    else:
                        fl = read or ''
                    typ = TYPES.get(k, 'str')
                    ops.append({'t': 'get', 'k': k, 'name': case(k.split('/')[1]), 'kind': kind, 'fallback': fb,
                                'type': typ, 'file': fl})
            segs.append(ops)
        jobs.append((d, segs, files))

    def play(job):
        d, segs, files = job
        ev = []
        for ops in segs:
            r = c.call(segment, d, ops, timeout=60)
            if r[0] != 'ok':
                ev.append({'t': 'crash', 'what': str(r[1])[:500]})
                break
            ev += r[1] + [{'t': 'new'}]
        shutil.rmtree(d)
        return ev
    traces = []
    stats = {}
    for (d, segs, files), ev in zip(jobs, c.pmap(play, jobs)):
        texts = set(defaults.values()) | {v for f in files.values() for v in f.values()} | \
            {o['text'] for ops in segs for o in ops if o['t'] == 'set'}
        used = {e['kind'] for e in ev if e['t'] == 'get'}
        table = {'%s|%s' % (k, t): parse(k.split(':')[0], t, k.split(':')[-1]) for k in used for t in texts}
        for e in ev:
            stats[e['t']] = stats.get(e['t'], 0) + 1
        traces.append({'cfg': {'defaults': defaults, 'parse': table, 'files': files}, 'ev': ev,
                       'about': {'files': files}})
    n = len(traces)
    ctrl = []
    for t in traces[:25]:
        ks = [i for i, e in enumerate(t['ev']) if e['t'] == 'get']
        if ks:
            ev = [dict(e) for e in t['ev']]
            ev[c.rng.choice(ks)]['got'] = 'S other'
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
        ks = [i for i, e in enumerate(t['ev']) if e['t'] == 'has']
        if ks:
            ev = [dict(e) for e in t['ev']]
            i = c.rng.choice(ks)
            ev[i]['yes'] = not ev[i]['yes']
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Config', allt, expect_reject=idx)
    c.judge('Config', allt, res, idx)
    c.sample({'files': traces[0]['about'], 'events': traces[0]['ev'][:12]})
    c.finish(histories=n, operations=stats)


vf.main(run)
