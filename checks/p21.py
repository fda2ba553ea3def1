"""P21: gridded data and tables in files."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import tc
import copy
import io
import pickle
import random
import shutil
import traceback
import zlib
from datetime import datetime
import numpy as np

MISSING = -999999999
VS, CS = 1000000., 100000.     # scales of values and coordinates


def num(x, nodata=None, scale=VS):
    x = float(x)
    if x != x or (nodata is not None and x == nodata):
        return MISSING
    return int(round(max(-1e9, min(1e9, x * scale))))


def flat(a, nodata=None, scale=VS):
    if np.ma.isMaskedArray(a):
        a = a.astype(float).filled(np.nan)
    return [num(x, nodata, scale) for x in np.asarray(a, dtype=float).ravel()]


def digest(x):
    return zlib.crc32(pickle.dumps(plain(x))) & 0x3fffffff


def plain(x):
    """Data of a caller in a form that shows every change."""
    if isinstance(x, dict):
        return [(str(k), plain(x[k])) for k in x]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return [x.shape, str(x.dtype), np.ma.filled(x.astype(float), -12345.).tobytes() if x.dtype.kind in 'fi' else repr(x)]
    return repr(x) if x is None or isinstance(x, (str, int, float, bool, np.number)) else type(x).__name__


def axis(rng, n, step):
    return rng.randint(-50, 170) + (step or rng.choice([.25, .5, 1., 2.])) * np.arange(n)


def values(rng, shape, nodata, missing):
    z = np.array([rng.uniform(-300., 900.) for _ in range(int(np.prod(shape)))]).round(rng.choice([0, 2, 5]))
    if rng.random() < .3:
        z = np.abs(z)
    if rng.random() < .2:
        z = np.zeros_like(z)
    for i in range(len(z)):
        if rng.random() < missing:
            z[i] = nodata
    return z.reshape(shape)


def square(c):
    """Ascii grids have the same spacing both ways."""
    return len(c['lat']) < 2 or abs(c['lat'][1] - c['lat'][0]) == c['lon'][1] - c['lon'][0]


def days(times):
    return [(t - datetime(1990, 1, 1)).total_seconds() / 86400. for t in times]


class World(object):
    """The files of one history and how they are written and read."""

    def __init__(self, rng, d):
        from Utilities import nctools, grid, files, nc2txt
        self.rng, self.d, self.ev = rng, d, []
        self.nctools, self.grid, self.files, self.nc2txt = nctools, grid, files, nc2txt
        self.path = {f: os.path.join(d, n) for f, n in
                     {1: 'one.nc', 2: 'two.nc', 3: 'a.txt', 4: 'b.asc', 5: 'table.csv'}.items()}
        self.has = {}

    def call(self, fn, args, kw):
        """Call fn and record whether its arguments were left alone."""
        b = digest([args, kw])
        r = fn(*args, **kw)
        self.ev.append({'t': 'args', 'before': b, 'after': digest([args, kw])})
        return r

    def save(self, f, how):
        (self.save_nc if f <= 2 else self.save_asc if f <= 4 else self.save_tab)(f, how)

    def save_nc(self, f, how):
        rng, nct = self.rng, self.nctools
        nodata = rng.choice([-9999, -9999, -1.e4, 1e10])
        three = rng.random() < .3
        ny, nx = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 4, 6])
        if how != 'late' and rng.random() < .1:
            nx = 30
        third = rng.choice(['ari', 'time'])
        sizes = [(third, 3)] if three else []
        sizes += [('lat', ny), ('lon', nx)]
        # numbers between two representable ones differ by less than the tolerances
        dims, coords, step = {}, {}, rng.choice([None, .25, .5, 1., 2.])
        for k, (n, s) in enumerate(sizes):
            v = axis(rng, s, step) if n not in ('ari', 'time') else np.array([2., 50.25, 1000.])
            if n == 'lat':
                v = np.clip(v, -90, 90) if v.max() <= 90 else v - 150
                if rng.random() < .4:     # from north to south
                    v = v[::-1].copy()
            coords[n] = v
            dims[k] = {'name': n, 'values': v, 'dtype': rng.choice(['f', 'd', 'f8']),
                       'atts': {'units': 'days since 1990-01-01' if n == 'time' else 'degrees of ' + n, 'long_name': n}}
            if n == 'time' and rng.random() < .5:
                dims[k]['atts']['calendar'] = rng.choice(['standard', 'proleptic_gregorian', 'noleap'])
        shape = tuple(s for n, s in sizes)
        nvar = 1 if rng.random() < .6 else 2
        vs, content = {}, []
        for k in range(nvar):
            z = values(rng, shape, nodata, rng.choice([0, .1, .5]))
            dt = rng.choice(['f', 'd', 'f4', 'f8'])
            given = z
            if how == 'masked':
                given = np.ma.masked_array(np.where(z == nodata, 5., z), mask=z == nodata)
            u = rng.choice(['m/s', 'hPa', ''])
            vs[k] = {'name': 'v%d' % k, 'dims': tuple(n for n, s in sizes), 'values': given, 'dtype': dt,
                     'atts': {'units': u, 'valid_range': (-1e5, 2e5)}}
            q = 1 if dt in ('d', 'f8') else 70     # what the type can hold
            if rng.random() < .25 and how != 'parts':
                vs[k]['least_significant_digit'] = dig = rng.choice([0, 1, 2])
                q = int(VS * 10 ** -dig)
            content.append({'n': 'v%d' % k, 'v': flat(z, nodata), 'q': q, 'u': u})
        atts, kw = [], {'nodata': nodata}
        if how in ('given', 'open', 'late'):
            atts = [['tag%d' % rng.randint(1, 5), rng.choice(['a', 'b', 'some text'])]]
            if rng.random() < .3:
                atts.append(['title', 'first title'])
            kw['gatts'] = {k: v for k, v in atts}
        elif how == 'none':
            kw['gatts'] = None
        if rng.random() < .3 and how != 'parts':
            kw['datatitle'] = 'some title'
            atts = [a for a in atts if a[0] != 'title'] + [['title', 'some title']]
        if rng.random() < .3:
            kw['zlib'] = False
        p = self.path[f]
        if how == 'parts':
            from netCDF4 import Dataset
            nc = Dataset(p, 'w')
            for k in dims:
                self.call(nct.ncCreateDim, (nc, dims[k]['name'], dims[k]['values'], dims[k]['dtype'], dims[k]['atts']), {})
            for k in vs:
                self.call(nct.ncCreateVar, (nc, vs[k]['name'], vs[k]['dims'], vs[k]['dtype'], vs[k]['values'],
                                            vs[k]['atts']), {'fill_value': nodata})
            nc.close()
        elif how in ('open', 'late'):
            kw['keepfileopen'] = True
            if how == 'late':
                kw['writedata'] = False
            nc = self.call(nct.ncSaveGrid, (p, dims, vs), kw)
            if how == 'late':
                for k in vs:
                    self.ev.append({'t': 'unwritten', 'v': flat(nc.variables[vs[k]['name']][:], nodata)})
                    nc.variables[vs[k]['name']][:] = vs[k]['values']
            nc.close()
        else:
            self.call(nct.ncSaveGrid, (p, dims, vs), kw)
        if rng.random() < .15 and how != 'parts':
            self.refuse(dims, vs, kw)
        self.has[f] = {'noleap': 'time' in coords and dims[0]['atts'].get('calendar') == 'noleap', 'nodata': nodata, 'three': three, 'nvar': nvar, 'coords': coords, 'content': content, 'shape': shape}
        self.ev.append({'t': 'save', 'f': f, 'ctol': 1, 'vars': content,
                        'dims': [{'n': n, 'v': flat(coords[n], None, CS)} for n in coords],
                        'atts': [{'n': k, 'v': v} for k, v in atts]})

    def refuse(self, dims, vs, kw):
        """Data that does not fit its axes, or lacks a part of its description."""
        vs = {k: dict(v) for k, v in vs.items()}
        dims = {k: dict(v) for k, v in dims.items()}
        what = self.rng.choice(['more', 'fewer', 'dim', 'var'])
        v = vs[self.rng.choice(list(vs))]
        if what == 'more':
            v['values'] = np.zeros((2,) + np.shape(v['values']))
        elif what == 'fewer':
            v['values'] = np.zeros(np.shape(v['values'])[1:])
        elif what == 'dim':
            del dims[self.rng.choice(list(dims))][self.rng.choice(['name', 'values', 'dtype', 'atts'])]
        else:
            del v[self.rng.choice(['name', 'values', 'dtype', 'atts', 'dims'])]
        try:
            self.nctools.ncSaveGrid(os.path.join(self.d, 'bad.nc'), dims, vs, **{k: w for k, w in kw.items() if k != 'keepfileopen'})
            self.ev.append({'t': 'refuse', 'what': what, 'raised': 'nothing'})
        except (KeyError, ValueError) as e:
            self.ev.append({'t': 'refuse', 'what': what, 'raised': type(e).__name__})

    def save_asc(self, f, how):
        rng = self.rng
        nodata = rng.choice([-9999, -9999, -1, 0])
        ny, nx = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 4, 6])
        step = rng.choice([.02, .05, .25, 1., 2.5])
        lon = round(rng.uniform(0, 300), 2) + step * np.arange(nx)
        lat = (round(rng.uniform(-60, 40), 2) + step * np.arange(ny))[::-1]
        if how == 'column':
            nx, lon = 1, lon[:1]
        z = values(rng, (ny, nx), nodata, rng.choice([0, .2, .6]))
        data = z[:, 0] if how == 'column' else z
        kw = {'nodata': nodata}
        sep = None
        if how == 'comma':
            kw['delimiter'] = sep = ','
        q = 1
        if rng.random() < .3:
            kw['fmt'], q = '%8.3f', 501
        p = self.path[f]
        if how == 'handle':
            fh = open(p, 'w')
            self.call(self.grid.grdSave, (fh, data, lon, lat, step), kw)
            fh.close()
        else:
            self.call(self.grid.grdSave, (p, data, lon, lat, step), kw)
        self.has[f] = {'sep': sep}
        self.ev.append({'t': 'save', 'f': f, 'ctol': 2, 'atts': [], 'vars': [{'n': 'z', 'v': flat(z, nodata), 'q': q, 'u': ''}],
                        'dims': [{'n': 'lon', 'v': flat(lon, None, CS)}, {'n': 'lat', 'v': flat(lat, None, CS)}]})

    def save_tab(self, f, how):
        rng = self.rng
        n, m = rng.choice([1, 2, 5, 9]), rng.choice([1, 1, 2, 4])
        z = values(rng, (n, m) if m > 1 or rng.random() < .5 else (n,), np.nan, rng.choice([0, .2]))
        kw = {}
        if how == 'header':
            kw['header'] = rng.choice(['A,B', 'one', 'x\ny'])
        q = 1
        if rng.random() < .4:
            kw['fmt'], q = '%8.3f', 501
        sep = ','
        if rng.random() < .2:
            kw['delimiter'] = sep = ' '
        p = os.path.join(self.d, 'table.csv')
        if how == 'newdir':
            p = os.path.join(self.d, 'n%d' % rng.randint(0, 999), 'table.csv')
        self.path[f] = p
        here = os.getcwd()
        try:
            if how == 'local':
                os.chdir(self.d)
                p = 'table.csv'
            self.call(self.files.flSaveFile, (p, z), kw)
        finally:
            os.chdir(here)
        self.has[f] = {'sep': sep}
        self.ev.append({'t': 'save', 'f': f, 'ctol': 0, 'atts': [], 'dims': [], 'vars': [{'n': 'z', 'v': flat(z), 'q': q, 'u': ''}]})

    def read(self, f, how):
        h, p = self.has[f], self.path[f]
        got = {'t': 'read', 'f': f, 'atts': [], 'dims': [], 'vars': []}
        if f <= 2:
            if how in ('grid', 'masked', 'convert') and h['nvar'] > 1 or how == 'convert' and (
                    h['shape'][-1] < 2 or not square(h['coords'])):
                how = 'tools'
            if how == 'convert':
                return self.convert(f)
            dims = list(h['coords'])
            if how == 'tools':
                nc = self.nctools.ncLoadFile(p)
                dims = [n for n in nc.dimensions]
                for n in dims:
                    v = self.nctools.ncGetDims(nc, n)
                    if n == 'time':
                        try:
                            v = days(self.nctools.ncGetTimes(nc))
                            if h['noleap']:     # the calendar has no 29th of February
                                v = [q - (q > 789) for q in v]
                        except ValueError:
                            if not h['noleap']:
                                raise
                    got['dims'].append({'n': n, 'v': flat(v, None, CS)})
                for n in nc.variables:
                    if n not in nc.dimensions:
                        a = self.nctools.ncGetData(nc, n)
                        b = self.nctools.ncGetVar(nc, n)
                        if a.shape != b.shape:
                            a = a.ravel()[:0]
                        got['vars'].append({'n': n, 'v': flat(a, h['nodata']), 'u': str(b.getncattr('units'))})
                got['atts'] = [{'n': n, 'v': str(nc.getncattr(n))} for n in nc.ncattrs()] or [{'n': 'title', 'v': ''}]
                nc.close()
            else:
                fn = self.grid.grdRead if how == 'grid' else self.grid.grdReadFromNetcdf
                lon, lat, z = fn(p)
                got['dims'] = [{'n': 'lon', 'v': flat(lon, None, CS)}, {'n': 'lat', 'v': flat(lat, None, CS)}]
                if h['three']:     # these functions return no third axis
                    n = list(h['coords'])[0]
                    got['dims'].append({'n': n, 'v': flat(h['coords'][n], None, CS)})
                got['vars'] = [{'n': 'v0', 'v': flat(z, h['nodata']), 'u': '-'}]
        elif f <= 4:
            lon, lat, z = self.grid.grdRead(p, h['sep']) if h['sep'] else self.grid.grdRead(p)
            if z.shape != (len(lat), len(lon)):
                z = z.ravel()[:0]
            got['dims'] = [{'n': 'lon', 'v': flat(lon, None, CS)}, {'n': 'lat', 'v': flat(lat, None, CS)}]
            got['vars'] = [{'n': 'z', 'v': flat(z), 'u': '-'}]
        else:
            z = self.files.flLoadFile(p) if h['sep'] == ',' else self.files.flLoadFile(p, delimiter=None)
            got['vars'] = [{'n': 'z', 'v': flat(z), 'u': '-'}]
        self.ev.append(got)

    def convert(self, f):
        """The conversion of a netCDF file to an ascii grid, whose cells are
        centred on the points of the grid."""
        h = self.has[f]
        three = h['three']
        rec = list(h['coords'])[0]
        base = os.path.splitext(self.path[f])[0]
        outs = [base + '.%s.txt' % q for q in ('2.0', '50.25', '1000.0')] if three else [base + '.txt']
        for o in outs:
            if os.path.exists(o) and self.rng.random() < .5:
                os.remove(o)
        self.nc2txt.process(['-f', self.path[f], '-v', 'v0'] + (['-r', rec] if three else []) +
                            (['-m', repr(float(h['nodata']))] if h['nodata'] != -9999 else []))
        z = np.array(h['content'][0]['v']).reshape(h['shape'])
        lat = h['coords']['lat']
        up = len(lat) > 1 and lat[0] < lat[-1]     # rows of the ascii grid go from north to south
        for k, o in enumerate(outs):
            zk = z[k] if three else z
            zk, lk = (zk[::-1], lat[::-1]) if up else (zk, lat)
            self.ev.append({'t': 'save', 'f': 6, 'ctol': 2, 'atts': [],
                            'vars': [{'n': 'z', 'v': [int(q) for q in zk.ravel()], 'q': 5001 + h['content'][0]['q'], 'u': ''}],
                            'dims': [{'n': 'lon', 'v': flat(h['coords']['lon'], None, CS)}, {'n': 'lat', 'v': flat(lk, None, CS)}]})
            with open(o) as fh:
                lines = [ln.split() for ln in fh]
            head = {ln[0].lower(): float(ln[1]) for ln in lines[:6]}
            cols, rows, c = int(head['ncols']), int(head['nrows']), head['cellsize']
            lon = head['xllcorner'] + c * (np.arange(cols) + .5)
            la = head['yllcorner'] + c * (rows - np.arange(rows) - .5)
            v = [float(q) for ln in lines[6:] for q in ln]
            self.ev.append({'t': 'read', 'f': 6, 'atts': [], 'vars': [{'n': 'z', 'v': flat(v, head['nodata_value']), 'u': '-'}],
                            'dims': [{'n': 'lon', 'v': flat(lon, None, CS)}, {'n': 'lat', 'v': flat(la, None, CS)}]})


def history(seed, ops, d):
    os.makedirs(d)
    w = World(random.Random(seed), d)
    out = {'ops': ops, 'seed': seed}
    sys.stdout = io.StringIO()
    try:
        for o in ops:
            out['at'] = o
            (w.save if o['op'] == 'save' else w.read)(o['f'], o['how'])
    except Exception:
        out['error'] = traceback.format_exc()[-900:]
        w.ev.append({'t': 'stopped'})
    finally:
        sys.stdout = sys.__stdout__
    shutil.rmtree(d)
    out['ev'] = w.ev
    return out


def corrupt(rng, t):
    ev = copy.deepcopy(t['ev'])
    rd = [i for i, e in enumerate(ev) if e['t'] == 'read']
    sv = [i for i, e in enumerate(ev) if e['t'] == 'args']
    how = rng.choice(['value', 'missing', 'coord', 'drop', 'args', 'atts', 'unit'])
    e = ev[rng.choice(rd)]
    v = rng.choice(e['vars'])['v']
    i = rng.randrange(len(v))
    if how == 'missing':
        v[i] = MISSING if v[i] != MISSING else 0
    elif how == 'coord' and e['dims']:
        rng.choice(e['dims'])['v'][0] += 700
    elif how == 'drop':
        del v[i]
    elif how == 'atts' and e['atts']:
        e['atts'].append({'n': 'other', 'v': '1'})
    elif how == 'unit' and e['vars'][0]['u'] != '-':
        e['vars'][0]['u'] += 'x'
    elif how == 'args':
        ev[rng.choice(sv)]['after'] += 1
    else:
        v[i] = v[i] + (5000000 if v[i] < 0 else -5000000) if v[i] != MISSING else 1
    return {'cfg': t['cfg'], 'ev': ev, 'about': t['about']}


def run():
    c = vf.Check('P21')
    c.source(exts=())
    tc.quiet()
    c.model_check('GridFileMC', min_states=1000)
    c.refute('GridFileMC', 'GridFileMCDefault', 'Accepted')
    c.refute('GridFileMC', 'GridFileMCCaller', 'Accepted')
    gen = c.generate('GridFileGen', 'GridFileGen', simulate=700 if c.quick else 3000)
    import Utilities.nctools
    import Utilities.grid
    import Utilities.files
    import Utilities.nc2txt
    base = c.dir('p21')
    jobs = [(c.rng.randrange(10 ** 9), g['ops'], os.path.join(base, '%d' % i)) for i, g in enumerate(gen)]
    chunks = [jobs[i::14] for i in range(14)]
    traces = []
    stats = {'histories': 0, 'saves': 0, 'reads': 0}
    for js, r in zip(chunks, c.pmap(lambda js: c.call(lambda: [history(*j) for j in js], timeout=400), chunks)):
        if r[0] != 'ok':
            c.violation('writing and reading files did not end: %s %s' % (r[0], str(r[1])[:500]), js)
            continue
        for g in r[1]:
            stats['histories'] += 1
            stats['saves'] += sum(e['t'] == 'save' for e in g['ev'])
            stats['reads'] += sum(e['t'] == 'read' for e in g['ev'])
            traces.append({'cfg': {'files': 6}, 'ev': g['ev'], 'about': {k: g[k] for k in ('seed', 'at', 'error') if k in g}})
    n = len(traces)
    good = [t for t in traces if any(e['t'] == 'read' for e in t['ev']) and 'error' not in t['about']]
    ctrl = [corrupt(c.rng, t) for t in c.rng.sample(good, min(60, len(good)))]
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('GridFile', allt, expect_reject=idx)
    c.judge('GridFile', allt, res, idx)
    c.sample({'ops': [list(o.values()) for o in jobs[0][1]]})
    c.finish(**stats)


vf.main(run)
