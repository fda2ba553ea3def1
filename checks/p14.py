"""P14: historical records turned into samples and tracks."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import math
import random
import shutil
from datetime import datetime, timedelta

MISS = 99999999
CAP = 50000000
EPOCH = datetime(1960, 1, 1)
FMTS = ['%Y-%m-%d %H:%M:%S', '%Y%m%d %H:%M', '%Y%m%d%H%M', '%d/%m/%Y %H:%M', '%Y-%m-%dT%H:%M']
PU = {'hPa': 1., 'Pa': 100., 'kPa': .1}
SU = {'mps': 1., 'kts': 1.944, 'kmh': 3.6}
LU = {'km': 1., 'nm': .539957, 'm': 1000.}


def geometry(a, b):
    """Distance range (0.01 km), bearing and its tolerance (0.01 deg) between
    two positions in hundredths of a degree, over the usual approximations."""
    la1, la2 = math.radians(a[1] / 100.), math.radians(b[1] / 100.)
    dlo = math.radians(((b[0] - a[0]) / 100. + 180.) % 360. - 180.)
    dla = la2 - la1
    h = math.sin(dla / 2) ** 2 + math.cos(la1) * math.cos(la2) * math.sin(dlo / 2) ** 2
    ds = [2 * math.asin(min(1., math.sqrt(h)))]
    bs = [math.atan2(math.sin(dlo) * math.cos(la2),
                     math.cos(la1) * math.sin(la2) - math.sin(la1) * math.cos(la2) * math.cos(dlo))]
    for la in (la1, (la1 + la2) / 2, la2):
        ds.append(math.hypot(dla, dlo * math.cos(la)))
        bs.append(math.atan2(dlo * math.cos(la), dla))
    mid = bs[2]
    dev = max(abs((x - mid + math.pi) % (2 * math.pi) - math.pi) for x in bs)
    return (int(min(ds) * 6350 * 100) - 1, int(max(ds) * 6385 * 100) + 1,
            int(round(math.degrees(mid) % 360. * 100)) % 36000, int(math.degrees(dev) * 100) + 60)


def jday(d):
    """Day of a 365-day year; 29 February counts as 28 February."""
    n = d.timetuple().tm_yday
    leap = d.year % 4 == 0
    return n - 1 if leap and n >= 60 else n


def make(rng, mode):
    """Random historical data: input rows with the expectations for each of them."""
    k = {}
    k['ident'] = rng.choice(['index', 'serial', 'seasonnum', 'seasonnum', 'num'])
    k['season'] = k['ident'] == 'seasonnum' or (k['ident'] != 'num' and rng.random() < .7)
    k['dates'] = rng.choice(['date', 'date', 'date', 'ymdhm', 'hhmm', 'ymdh', 'age'] + (['mdh'] if mode == 'samples' else []))
    k['fmt'] = rng.choice(FMTS)
    k['pu'], k['su'], k['lu'] = rng.choice(list(PU)), rng.choice(list(SU)), rng.choice(list(LU))
    k['vmax'], k['rmax'] = rng.random() < .7, rng.random() < .7
    k['filter'] = rng.random() < .7
    k['start'] = rng.choice([1981, 1981, 1975, 1985])
    k['neg'] = rng.random() < .3
    k['order'] = rng.random()
    wide = rng.random() < .25
    centre = rng.choice([150., 178., 90., 300., 40., 120., 360.])
    hemi = rng.choice([-1, 1, -1])
    year = rng.randint(1970, 1986)
    rows, used = [], set()
    ns = rng.choice([1, 2, 3, 5, 8, 14])
    num = 0
    for s in range(ns):
        if rng.random() < .35:
            year += rng.randint(1, 3)
            num = 0 if k['dates'] != 'mdh' else num
        # the number of a storm may equal that of the storm before (another season or another basin)
        num = num + 1 if rng.random() < .85 or num == 0 or k['dates'] == 'mdh' else num
        dt0 = rng.choice([360, 360, 180, 60, 30, 90, 720])
        if k['dates'] in ('ymdh', 'mdh'):
            dt0 = rng.choice([360, 60, 180])
        n = rng.choice([1, 1, 2, 2, 3, 4, 6, 10])
        month = rng.choice([1, 1, 2, 3, 11, 12, 12, 7])
        day = rng.randint(1, 28)
        if rng.random() < .2:
            # the ends of February and of the year
            month, day = rng.choice([(12, 31), (12, 30), (2, 28), (2, 29) if year % 4 == 0 else (3, 1)])
        t0 = datetime(year, month, day, rng.randint(1, 23) if k['dates'] == 'hhmm' else rng.randint(0, 23), 0 if k['dates'] in ('ymdh', 'mdh') else rng.choice([0, 30, 0, 15]))
        if k['dates'] == 'age':
            t0 = datetime(2000, 1, 1)
        if k['dates'] == 'mdh':
            t0 = t0.replace(year=2001 if month == 1 else 2000)
            # a storm from February on that lasts into January changes to the next year there
        la = hemi * rng.uniform(3, 25)
        lo = centre + rng.uniform(-25, 25)
        if wide:
            lo, la = rng.uniform(25, 335), rng.uniform(-45, 45)
        t = t0
        season = max(year + (1 if month >= 7 else 0), rows[-1]['season'] if rows else 0)
        for i in range(n):
            if i:
                m = dt0 * rng.choice([1, 1, 1, 2]) if rng.random() < .93 else 0
                t = t + timedelta(minutes=m)
                r = rng.random()
                if r < .8:
                    lo += rng.uniform(-1.5, 1.5)
                    la += rng.uniform(-.6, 1.2) * hemi
                elif r < .9:
                    lo += rng.choice([-1, 1]) * rng.choice([rng.uniform(2, 9.8), rng.uniform(10.2, 14.8), rng.uniform(15.2, 60)])
                    la += rng.uniform(-4, 4)
                elif r < .95:
                    la += rng.choice([-1, 1]) * rng.choice([rng.uniform(2, 4.8), rng.uniform(5.2, 30)])
                if centre < 360.:
                    lo = min(max(lo, 22.), 338.)
                la = min(max(la, -58.), 58.)
            x, y = int(round(lo * 100)) % 36000, int(round(la * 100))
            while (x, y) in used:
                x += 1
            used.add((x, y))
            p = rng.uniform(900, 1012)
            p = round(p, 1)
            pin = rng.choice([p] * 12 + [None, 'bad'])
            v = rng.choice([round(rng.uniform(5, 90), 1)] * 10 + [None, 'bad'])
            rr = rng.choice([round(rng.uniform(5, 120), 1)] * 10 + [None, 'bad'])
            rows.append({'storm': s, 'i': i, 'num': num, 'season': season, 't': t, 'lon': x, 'lat': y,
                         'p': pin, 'v': v, 'r': rr, 't0': t0, 'ser': '%dS%03d' % (t0.year, s)})
    k['rows'] = rows
    if rng.random() < .3:
        # a serial number that comes back after another storm
        for s in range(2, ns):
            if rng.random() < .3:
                for r in rows:
                    if r['storm'] == s:
                        r['ser'] = [q['ser'] for q in rows if q['storm'] == s - 2][0]
    return k


def csv(k, path, mode, rng):
    """Write the rows as the data file of a source; returns its columns and per-row input facts."""
    cols = []
    if k['ident'] == 'index':
        cols.append('index')
    if k['ident'] == 'serial':
        cols.append('tcserialno')
    if k['ident'] in ('seasonnum', 'num'):
        cols.append('num')
    if k['season']:
        cols.append('season')
    cols += {'date': ['date'], 'ymdhm': ['year', 'month', 'day', 'hour', 'minute'],
             'hhmm': ['year', 'month', 'day', 'hour'], 'ymdh': ['year', 'month', 'day', 'hour'],
             'age': ['age'], 'mdh': ['month', 'day', 'hour']}[k['dates']]
    cols += ['lon', 'lat', 'pressure']
    if k['vmax']:
        cols.append('vmax')
    if k['rmax']:
        cols.append('rmax')
    if mode == 'tracks':
        cols += ['penv', 'poci']
    cols += ['skip'] * rng.randint(0, 2)
    rng.shuffle(cols)
    hdr = rng.randint(0, 2)
    with open(path, 'w') as fh:
        for i in range(hdr):
            fh.write('heading line %d\n' % i)
        for r in k['rows']:
            t = r['t']

            def code(v, f, codes):
                if v is None:
                    return codes[0]
                if v == 'bad':
                    return codes[1]
                return f(v)
            lon = r['lon'] / 100.
            if k['neg'] and lon > 180:
                lon -= 360.
            val = {'index': '1' if r['i'] == 0 else '0', 'tcserialno': r['ser'], 'num': '%d' % r['num'],
                   'season': '%d' % r['season'], 'date': t.strftime(k['fmt']), 'year': '%d' % t.year,
                   'month': '%d' % t.month, 'day': '%d' % t.day, 'minute': '%d' % t.minute,
                   'hour': '%d' % (t.hour * 100 + t.minute) if k['dates'] == 'hhmm' else '%d' % t.hour,
                   'age': '%.4f' % ((t - r['t0']).total_seconds() / 3600.), 'lon': '%.2f' % lon,
                   'lat': '%.2f' % (r['lat'] / 100.), 'skip': 'x', 'penv': '1010.5', 'poci': '1008.0',
                   'pressure': code(r['p'], lambda v: '%.4f' % (v * PU[k['pu']]), k['pcodes']),
                   'vmax': code(r['v'], lambda v: '%.4f' % (v * SU[k['su']]), k['vcodes']),
                   'rmax': code(r['r'], lambda v: '%.4f' % (v * LU[k['lu']]), k['rcodes'])}
            fh.write(','.join(val[c] for c in cols) + '\n')
    return cols, hdr


def table(path, ncol):
    """Rows of a sample file, read without the code under test."""
    out = []
    if not os.path.exists(path):
        return None
    for line in open(path):
        line = line.strip()
        if not line or line[0] in '%#':
            continue
        out.append([float(x) for x in line.replace(',', ' ').split()])
    return out


def val(x):
    # missing values are not numbers, or the largest integer (single precision rounds it up)
    if math.isnan(x) or x > 9.2e18:
        return MISS
    return int(max(-CAP, min(CAP, round(x * 100))))


def ints(t):
    return [[int(round(x * 100)) for x in r] for r in t]


def expectation(k, r, prevrow, mode):
    d = geometry((prevrow['lon'], prevrow['lat']), (r['lon'], r['lat'])) if prevrow else (0, 0, 0, 0)
    t = r['t']
    m = MISS if mode == 'samples' else 0

    def q(v, has=True):
        return m if not has or v is None or v == 'bad' else int(round(v * 100))
    return {'t0': 'row', 'idx': 1 if r['i'] == 0 else 0, 'ser': r['ser'], 'num': r['num'],
            'season': r['season'] if k['season'] else -1, 'year': t.year, 'jd': jday(t),
            't': int((t - EPOCH).total_seconds() // 60), 'lon': r['lon'], 'lat': r['lat'],
            'dlo': d[0], 'dhi': d[1], 'bear': d[2], 'btol': d[3],
            'p': q(r['p']), 'v': q(r['v'], k['vmax']), 'r': q(r['r'], k['rmax']),
            'ls': 1 if mode == 'samples' and r['lon'] >= k['coast'] else 0,
            'age0': 0 if k['dates'] != 'age' else int((t - r['t0']).total_seconds() // 60)}


def write_mask(path, coast):
    import numpy as np
    from netCDF4 import Dataset
    nc = Dataset(path, 'w')
    lon = np.arange(0., 361., 1.)
    lat = np.arange(-61., 62., 1.)
    nc.createDimension('lat', lat.size)
    nc.createDimension('lon', lon.size)
    v = nc.createVariable('lat', 'f8', ('lat',))
    v[:] = lat
    v = nc.createVariable('lon', 'f8', ('lon',))
    v[:] = lon
    v = nc.createVariable('landmask', 'f8', ('lat', 'lon'))
    v[:, :] = np.where(lon >= coast / 100., 1. + lon % 3, 0.)[None, :] * np.ones((lat.size, 1))
    nc.close()


def ini(d, k, cols, hdr, csvname):
    wf = k['wf']
    return tc.write_ini(os.path.join(d, 'h.ini'), {
        'Region': {'gridLimit': tc.limits(wf[0], wf[2], wf[1], wf[3])},
        'DataProcess': {'InputFile': csvname, 'Source': 'HIST', 'StartSeason': k['start'],
                        'FilterSeasons': k['filter']},
        'HIST': {'Columns': ','.join(cols), 'FieldDelimiter': ',', 'NumberOfHeadingLines': hdr,
                 'PressureUnits': k['pu'], 'SpeedUnits': k['su'], 'LengthUnits': k['lu'], 'DateFormat': k['fmt']},
        'TrackGenerator': {'gridLimit': tc.limits(k['reg'][0], k['reg'][2], k['reg'][1], k['reg'][3])},
        'Input': {'LandMask': os.path.join(d, 'mask.nc')},
        'Output': {'Path': os.path.join(d, 'out'), 'Format': 'txt'},
    })


def prepare(d, seed, mode):
    rng = random.Random(seed)
    while True:
        k = make(rng, mode)
        # rows as the program keeps them: at least two
        if sum(1 for r in k['rows'] if not k['filter'] or not k['season'] or r['season'] >= k['start']) >= 2:
            break
    k['pcodes'] = rng.choice([('-999', '0'), ('9999', '-1'), ('0', '99999')] + ([('', '-999')] if mode == 'samples' else []))
    if k['pu'] == 'Pa':
        k['pcodes'] = ('-999', '9999')
    k['vcodes'] = rng.choice([('-999', '9999'), ('-1', '2000'), ('', '2000')])
    k['rcodes'] = rng.choice([('-999', '-1'), ('-9999', '0'), ('', '-1')])
    if mode == 'tracks':
        for r in k['rows']:
            if not isinstance(r['v'], float):
                r['v'] = 20.
            if not isinstance(r['r'], float):
                r['r'] = 30.
    # the coast keeps clear of every position
    lons = {r['lon'] for r in k['rows']}
    coast = [c for c in range(2000, 35000, 100) if all(abs(x - c) > 220 for x in lons)]
    k['coast'] = rng.choice(coast) if coast else 100
    # domains: whole degrees away from every position
    r = rng.choice(k['rows'])

    def box(w, h):
        cx, cy = r['lon'] / 100. + rng.uniform(-w / 3, w / 3), r['lat'] / 100. + rng.uniform(-h / 3, h / 3)
        b = [math.floor(cx - w / 2) + .505, math.ceil(cx + w / 2) + .505, math.floor(cy - h / 2) + .505, math.ceil(cy + h / 2) + .505]
        return b
    k['wf'], k['reg'] = box(8, 6), box(40, 25)
    return rng, k


def samples(d, seed):
    rng, k = prepare(d, seed, 'samples')
    csvname = os.path.join(d, 'data.csv')
    cols, hdr = csv(k, csvname, 'samples', rng)
    write_mask(os.path.join(d, 'mask.nc'), k['coast'])
    cfgfile = ini(d, k, cols, hdr, csvname)
    os.makedirs(os.path.join(d, 'out', 'process'))
    import numpy as np
    from DataProcess.DataProcess import DataProcess
    from DataProcess.CalcFrequency import CalcFrequency
    from DataProcess.CalcTrackDomain import CalcTrackDomain
    restrict = rng.random() < .25
    dom = [0, 0, 0, 0]
    dp = DataProcess(cfgfile)
    if restrict:
        ind, p = [], None
        for r in k['rows']:
            same = p is not None and {'index': r['i'] > 0, 'serial': p['ser'] == r['ser'],
                                      'seasonnum': (p['season'], p['num']) == (r['season'], r['num']),
                                      'num': p['num'] == r['num']}[k['ident']]
            ind.append(0 if same else 1)
            p = r
        g = CalcTrackDomain(cfgfile).calcDomainFromTracks(
            np.array(ind), np.array([r['lon'] / 100. for r in k['rows']]), np.array([r['lat'] / 100. for r in k['rows']]))
        dom = [g['xMin'], g['xMax'], g['yMin'], g['yMax']]
        edge = any(abs(r['lon'] / 100. - x) < 1e-4 for r in k['rows'] for x in dom[:2]) or \
            any(abs(r['lat'] / 100. - x) < 1e-4 for r in k['rows'] for x in dom[2:])
        dom = [int(round(x * 100)) for x in dom]

        def inside(r):
            return dom[0] <= r['lon'] <= dom[1] and dom[2] <= r['lat'] <= dom[3]
        keep, kept = False, []
        for r, i in zip(k['rows'], ind):
            keep = inside(r) if i else keep
            if keep and (not k['filter'] or not k['season'] or r['season'] >= k['start']):
                kept.append(r)
        if len(kept) < 2 or edge:
            restrict = False
    dp.processData(restrictToWindfieldDomain=True) if restrict else dp.processData()
    P = os.path.join(d, 'out', 'process')
    T = {n: table(os.path.join(P, n), 1) for n in os.listdir(P)}
    miss = [n for n in ('all_lon_lat', 'cyclone_tracks', 'all_bearing', 'bearing_rate', 'all_speed', 'speed_rate',
                        'all_pressure', 'pressure_rate', 'wind_speed', 'origin_lon_lat', 'init_lon_lat', 'init_speed',
                        'init_bearing', 'speed_no_init', 'bearing_no_init', 'init_pressure', 'pressure_no_init',
                        'origin_year', 'jdays', 'jday_genesis', 'jday_obs') if n not in T]
    if miss:
        return k, None, 'missing files: ' + ' '.join(miss)
    pos = {}
    for i, r in enumerate(ints(T['all_lon_lat'])):
        pos.setdefault((r[0], r[1]), i)
    n = len(T['all_lon_lat'])
    same = ['cyclone_tracks', 'all_bearing', 'bearing_rate', 'all_speed', 'speed_rate', 'all_pressure', 'pressure_rate', 'wind_speed']
    if k['rmax']:
        same += ['all_rmax', 'rmax_rate', 'init_rmax', 'rmax_no_init']
        if any(x not in T for x in same):
            return k, None, 'missing files: ' + ' '.join(x for x in same if x not in T)
    for x in same:
        if 'init' not in x and len(T[x]) != n:
            return k, None, 'file %s has %d rows for %d positions' % (x, len(T[x]), n)
    ev, prevrow = [], None
    for r in k['rows']:
        e = expectation(k, r, prevrow, 'samples')
        i = pos.get((r['lon'], r['lat']))
        if i is None:
            e['out'] = {'pos': 0}
        else:
            o = {'pos': i + 1, 'ind': int(T['cyclone_tracks'][i][0]), 'ls': int(T['all_lon_lat'][i][2]),
                 'bear': val(T['all_bearing'][i][0]), 'brate': val(T['bearing_rate'][i][0]),
                 'speed': val(T['all_speed'][i][0]), 'srate': val(T['speed_rate'][i][0]),
                 'p': val(T['all_pressure'][i][0]), 'prate': val(T['pressure_rate'][i][0]),
                 'v': val(T['wind_speed'][i][0]),
                 'r': val(T['all_rmax'][i][0]) if k['rmax'] else MISS,
                 'rrate': val(T['rmax_rate'][i][0]) if k['rmax'] else MISS}
            e['out'] = o
        ev.append(e)
        prevrow = r
    # region statistics from the sample files
    two = len(T['origin_lon_lat']) > 1
    seasons = [int(x[0]) for x in T['origin_year']]
    f = {'n': n, 'origin': [[a, b, c // 100] for a, b, c in ints(T['origin_lon_lat'])],
         'init': [[a, b, c // 100] for a, b, c in ints(T['init_lon_lat'])]}
    for key, name in (('ispeed', 'init_speed'), ('ibear', 'init_bearing'), ('nspeed', 'speed_no_init'),
                      ('nbear', 'bearing_no_init'), ('ip', 'init_pressure'), ('np', 'pressure_no_init'),
                      ('ir', 'init_rmax'), ('nr', 'rmax_no_init')):
        f[key] = [val(x[0]) for x in T.get(name) or []]
    f['oyear'] = seasons
    f['freq'] = [[int(a), int(b)] for a, b in T.get('frequency') or []]
    f['jdays'] = [int(x[0]) for x in T['jdays']]
    for key, name in (('jgen', 'jday_genesis'), ('jobs', 'jday_obs')):
        h = [0] * 365
        for a, b in T[name]:
            if 1 <= a <= 365:
                h[int(a) - 1] = int(b)
        f[key] = h
    f['reg'], f['mean'] = [], 0
    if two and max(seasons) > min(seasons):
        f['mean'] = int(round(CalcFrequency(cfgfile, None).calc() * 100))
        f['reg'] = [[int(a), int(b)] for a, b in table(os.path.join(P, 'region_frequency'), 2)]
    g = CalcTrackDomain(cfgfile).calcDomainFromFile() if n > 1 else None
    wf = [int(round(x * 1000)) / 10. for x in k['wf']]
    wf = [math.ceil(wf[0]), math.floor(wf[1]), math.ceil(wf[2]), math.floor(wf[3])]
    f['region'] = [int(round(g[x] * 100)) for x in ('xMin', 'xMax', 'yMin', 'yMax')]
    ev.append({'t0': 'end', 'files': f, 'reg': [f(round(x * 1000) / 10.) for f, x in zip([math.floor, math.ceil] * 2, k['reg'])], 'wf': wf})
    cfg = {'ident': k['ident'], 'filter': k['filter'], 'start': k['start'], 'jx': 1500, 'jy': 500, 'miss': MISS,
           'hasr': k['rmax'], 'restrict': restrict, 'dom': dom, 'mode': 'samples'}
    return k, {'cfg': cfg, 'ev': ev}, None


def tracks(d, seed):
    import numpy as np
    rng, k = prepare(d, seed, 'tracks')
    csvname = os.path.join(d, 'data.csv')
    cols, hdr = csv(k, csvname, 'tracks', rng)
    cfgfile = ini(d, k, cols, hdr, csvname)
    from Utilities.loadData import loadTrackFile
    got = loadTrackFile(cfgfile, csvname, 'HIST', calculateWindSpeed=False)
    out, n = {}, 0

    def v(x):
        return int(max(-CAP, min(CAP, round(float(x) * 100)))) if math.isfinite(x) else CAP
    for t in got:
        for j in range(len(t.data)):
            r = t.data[j]
            n += 1
            out[(v(r['Longitude']), v(r['Latitude']))] = {
                'pos': n, 'ind': 1 if j == 0 else 0, 'ls': 0,
                'age': int(round(float(r['TimeElapsed']) * 60)),
                'when': int((r['Datetime'] - EPOCH).total_seconds() // 60),
                'speed': v(r['Speed']), 'bear': v(r['Bearing']), 'p': v(r['CentralPressure']),
                'v': v(r['WindSpeed']), 'r': v(r['rMax'])}
    ev, prevrow = [], None
    for r in k['rows']:
        e = expectation(k, r, prevrow, 'tracks')
        e['out'] = out.get((r['lon'], r['lat']), {'pos': 0})
        ev.append(e)
        prevrow = r
    ev.append({'t0': 'tend', 'n': n, 'storms': [int(t.data['CycloneNumber'][0]) for t in got],
               'minp': [v(t.trackMinPressure) for t in got], 'maxv': [v(t.trackMaxWind) for t in got]})
    cfg = {'ident': k['ident'], 'filter': k['filter'], 'start': k['start'], 'jx': 1000, 'jy': 500, 'miss': 0,
           'hasr': k['rmax'], 'restrict': False, 'dom': [0, 0, 0, 0], 'mode': 'tracks'}
    return k, {'cfg': cfg, 'ev': ev}, None


def run():
    c = vf.Check('P14')
    c.source(exts=('Utilities._maputils',))
    tc.quiet()
    fakempi.no_mpi()
    c.model_check('HistDataMC', min_states=1000)
    import DataProcess.DataProcess
    import DataProcess.CalcFrequency
    import DataProcess.CalcTrackDomain
    N, M = (260, 120) if c.quick else (4000, 2000)
    jobs = [(i, c.rng.getrandbits(32)) for i in range(N + M)]

    def play(job):
        i, seed = job
        d = c.dir('case')
        r = c.call(samples if i < N else tracks, d, seed, timeout=120)
        shutil.rmtree(d)
        if r[0] != 'ok':
            return {'cfg': {'mode': 'none'}, 'ev': [{'t0': 'ended ' + r[0], 'what': str(r[1])[-1500:], 'seed': seed}]}
        k, t, err = r[1]
        if t is None:
            return {'cfg': {'mode': 'none'}, 'ev': [{'t0': err}]}
        t['about'] = {x: k[x] for x in ('ident', 'season', 'dates', 'fmt', 'pu', 'su', 'lu', 'vmax', 'rmax', 'filter')}
        return t
    traces = c.pmap(play, jobs)
    stats = {}
    for t in traces:
        for x in ('ident', 'dates'):
            key = 'columns_%s' % t.get('about', {}).get(x)
            stats[key] = stats.get(key, 0) + 1
        stats['restricted'] = stats.get('restricted', 0) + bool(t['cfg'].get('restrict'))
        for e in t['ev']:
            if e['t0'] == 'row':
                o = e['out']
                stats['records'] = stats.get('records', 0) + 1
                stats['dropped_records'] = stats.get('dropped_records', 0) + (o['pos'] == 0)
                stats['storms'] = stats.get('storms', 0) + o.get('ind', 0)
    n = len(traces)
    ctrl = []
    for t in traces:
        ks = [i for i, e in enumerate(t['ev']) if e['t0'] == 'row' and e['out'].get('ind') == 0]
        if not ks or len(ctrl) >= 60:
            continue
        i = c.rng.choice(ks)
        for how in range(3):
            ev = [dict(e) for e in t['ev']]
            o = dict(ev[i]['out'])
            if how == 0:
                o['ind'] = 1
            elif how == 1:
                o['p'] = o['p'] + 50 if ev[i]['p'] != t['cfg']['miss'] else 95000
            elif t['cfg']['mode'] == 'samples':
                o['prate'] = 333 if o['prate'] == MISS else MISS
                if o['prate'] == MISS and abs(t['ev'][i]['out']['prate']) > 800:
                    continue
            else:
                o['age'] += 1
            ev[i]['out'] = o
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
        if t['cfg']['mode'] == 'samples':
            ev = [dict(e) for e in t['ev']]
            f = dict(ev[-1]['files'])
            f['origin'] = f['origin'][:-1]
            ev[-1]['files'] = f
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('HistData', allt, expect_reject=idx)
    c.judge('HistData', allt, res, idx)
    c.sample({'about': traces[0].get('about'), 'rows': traces[0]['ev'][:2]})
    c.finish(data_sets=n, observed=stats)


vf.main(run)
