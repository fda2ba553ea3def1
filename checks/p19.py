"""P19: local winds follow the wind direction, for every schedule of threads."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import fakempi
import tc
import threadsched
import csv
import math
import random
import shutil
import threading
import numpy as np

DIRS = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']
BANDS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']


def milli(x):
    return int(round(float(x) * 1000))


def came_from(u, v):
    """Direction the wind comes from in 1/1000 degree."""
    return int(round(1000 * (math.degrees(math.atan2(-u, -v)) % 360.))) % 360000


def make(rng, fine=True):
    """A regional wind field (rows from north to south) and multipliers."""
    nx, ny = rng.randint(2, 6), rng.randint(2, 6)
    res = rng.choice([0.5, 0.25, 1.0])
    f = rng.choice([1, 1, 2, 3, 4]) if fine else 1
    lon = rng.choice([0.5, 115.25, 150.]) + res * np.arange(nx)
    lat = rng.choice([-25., -12.25, 10.5]) + res * np.arange(ny)[::-1]
    g = np.random.RandomState(rng.randrange(2 ** 31))
    gust = np.round(1 + 69 * g.rand(ny, nx), 2)
    th = np.radians(360 * g.rand(ny, nx))
    for j in range(ny):
        for i in range(nx):
            k = rng.random()
            if k < .25:
                th[j, i] = math.radians(45 * rng.randrange(8))
            elif k < .4:        # just on either side of a border
                th[j, i] = math.radians(22.5 + 45 * rng.randrange(8) + rng.choice([-.01, .01]))
    u, v = -gust * np.sin(th), -gust * np.cos(th)
    for j in range(ny):
        for i in range(nx):
            k = rng.random()
            if k < .12:         # northerly, with hardly any east or west
                v[j, i], u[j, i] = -gust[j, i], rng.choice([0., 1e-7, -1e-7, 1e-9, 1e-5, -1e-5])
            elif k < .16:
                u[j, i], v[j, i] = rng.choice([(0., 5.), (5., 0.), (-5., 0.), (0., -5.)])
    m = {}
    for k, d in enumerate(rng.sample(range(8), 8)):
        z = np.round(.5 + .15 * d + .1 * g.rand(ny * f, nx * f), 3)
        if rng.random() < .3:
            z[g.rand(*z.shape) < .1] = -9999.
        m[DIRS[k]] = z
    return dict(lon=lon, lat=lat, res=res, f=f, gust=gust, u=u, v=v, m=m)


def write_tif(path, arrays, x0, y0, d):
    from osgeo import gdal, osr
    ny, nx = arrays[0].shape
    ds = gdal.GetDriverByName('GTiff').Create(path, nx, ny, len(arrays), gdal.GDT_Float32)
    ds.SetGeoTransform((x0, d, 0, y0, 0, -d))
    s = osr.SpatialReference()
    s.ImportFromEPSG(4326)
    ds.SetProjection(s.ExportToWkt())
    for k, a in enumerate(arrays):
        b = ds.GetRasterBand(k + 1)
        b.SetNoDataValue(-9999)
        b.WriteArray(a)
    ds.FlushCache()
    del ds


def write_multipliers(s, d, combined):
    x0, y0, q = s['lon'][0] - s['res'] / 2, s['lat'][0] + s['res'] / 2, s['res'] / s['f']
    if combined:
        p = os.path.join(d, 'multi.tif')
        write_tif(p, [s['m'][n] for n in BANDS], x0, y0, q)
        return p
    for n in DIRS:
        write_tif(os.path.join(d, 'm4_%s.tif' % n), [s['m'][n]], x0, y0, q)


PARTS = {'shielding': 'Ms', 'terrain': 'Mz', 'topographic': 'Mt'}


def write_raw(s, d, rng):
    """Tiles of the three parts of the multipliers, whose product they are."""
    from netCDF4 import Dataset
    ny, nx = s['m']['n'].shape
    q = s['res'] / s['f']
    lon = s['lon'][0] - s['res'] / 2 + q * (np.arange(nx) + .5)
    lat = s['lat'][0] + s['res'] / 2 - q * (np.arange(ny) + .5)
    cut = sorted(rng.sample(range(2, nx - 1), 1)) if nx > 4 and rng.random() < .7 else []
    edges = [0] + cut + [nx]
    tiles = ['e%d' % (100 + i) for i in range(len(edges) - 1)]
    g = np.random.RandomState(rng.randrange(2 ** 31))
    for k in PARTS:
        os.makedirs(os.path.join(d, 'raw', k))
    for n in DIRS:
        total, gone = 1., np.zeros((ny, nx), bool)
        for k, v in PARTS.items():
            z = np.round(.7 + .7 * g.rand(ny, nx), 1)
            miss = g.rand(ny, nx) < rng.choice([0, 0, .1])
            total, gone = total * z, gone | miss
            z = np.where(miss, -9999., z)
            for t, a, b in zip(tiles, edges, edges[1:]):
                nc = Dataset(os.path.join(d, 'raw', k, '%s_%s_%s.nc' % (t, v.lower(), n)), 'w')
                for m, w in (('lat', lat), ('lon', lon[a:b])):
                    nc.createDimension(m, len(w))
                    x = nc.createVariable(m, 'f8', (m,))
                    x.units = 'degrees_north' if m == 'lat' else 'degrees_east'
                    x[:] = w
                nc.createVariable(v, 'f4', ('lat', 'lon'), fill_value=-9999.)[:] = z[:, a:b]
                nc.close()
        s['m'][n] = np.where(gone, -9999., np.round(total, 3))
    rng.shuffle(tiles)
    return tiles


def read_tif(path):
    from osgeo import gdal
    ds = gdal.Open(path)
    a = ds.GetRasterBand(1).ReadAsArray().astype(float)
    gt = ds.GetGeoTransform()
    del ds
    return a, gt


def pixels(s, local, gust, gt):
    """The pixels of the result, each with what is known about its place."""
    out = []
    res, lon, lat = s['res'], s['lon'], s['lat']
    q = res / s['f']
    for j in range(local.shape[0]):
        for i in range(local.shape[1]):
            x, y = gt[0] + gt[1] * (i + .5), gt[3] + gt[5] * (j + .5)
            a, b = int(np.abs(lon - x).argmin()), int(np.abs(lat - y).argmin())
            near = s['gust'][np.ix_(np.abs(lat - y) < res * (1 - 1e-6), np.abs(lon - x) < res * (1 - 1e-6))]
            if s['f'] == 1:
                near = s['gust'][b:b + 1, a:a + 1]
            mi = int(math.floor((x - (lon[0] - res / 2)) / q + 1e-6))
            mj = int(math.floor(((lat[0] + res / 2) - y) / q + 1e-6))
            if near.size == 0 or not (0 <= mi < len(lon) * s['f'] and 0 <= mj < len(lat) * s['f']):
                out.append({'b': 0, 'lo': 1, 'hi': 0, 'g': 0, 'l': 0, 'm': [0] * 8})
                continue
            m = [s['m'][n][mj, mi] for n in DIRS]
            out.append({'b': came_from(s['u'][b, a], s['v'][b, a]), 'lo': milli(near.min()), 'hi': milli(near.max()),
                        'g': milli(gust[j, i]) if gust is not None else milli(near.min()),
                        'l': milli(local[j, i]) if abs(local[j, i]) < 1000 else -1,
                        'm': [1000 if z == -9999 else milli(z) for z in m]})
    return out


class Cfg(object):
    def getboolean(self, *a, **k):
        return k.get('fallback', False)

    def sections(self):
        return []


def watch(events, sched):
    """Record which thread uses which raster, stopping inside of every use."""
    from osgeo import gdal
    names = {}

    def wrap(cls, name):
        real = getattr(cls, name)

        def call(self, *a, **k):
            s = sched()
            if s is None or not s.active:
                return real(self, *a, **k)
            try:
                ds = self.GetDataset() if isinstance(self, gdal.Band) else self
                ptr = int(ds.this)
            except Exception:
                return real(self, *a, **k)
            t = threading.get_ident()
            with lock:
                d = names.setdefault(ptr, len(names) + 1)
                n = thr.setdefault(t, len(thr) + 1)
                events.append({'t': 'enter', 'thr': n, 'ds': d})
            try:
                s.stop_here(hot=True)
                return real(self, *a, **k)
            finally:
                with lock:
                    events.append({'t': 'leave', 'thr': n, 'ds': d})
        setattr(cls, name, call)
    lock, thr = threading.Lock(), {}
    for n in ('ReadAsArray', 'WriteArray', 'ReadRaster', 'WriteRaster', 'FlushCache'):
        if hasattr(gdal.Band, n):
            wrap(gdal.Band, n)


def nested(events):
    """Uses of a raster within another use by the same thread are one use."""
    deep, out = {}, []
    for e in events:
        k = (e['thr'], e['ds'])
        if e['t'] == 'enter':
            deep[k] = deep.get(k, 0) + 1
            if deep[k] == 1:
                out.append(e)
        else:
            deep[k] -= 1
            if deep[k] == 0:
                out.append(e)
    return out


def run():
    c = vf.Check('P19')
    c.source(exts=('Utilities._akima', 'Utilities._maputils', 'PressureInterface._pressureProfile',
                   'wind._windmodels'))
    tc.quiet()
    c.model_check('SegmentPool', min_states=1000)
    c.refute('SegmentPool', 'SegmentPoolRacy', 'NoHang')
    c.refute('SegmentPool', 'SegmentPoolOpen', 'Exclusive')
    c.model_check('LocalWindMC', min_states=5000)
    orders = c.generate('SegmentPoolGen', 'SegmentPoolGen', simulate=60 if c.quick else 400)
    c.rng.shuffle(orders)
    import wind
    from ProcessMultipliers import processMultipliers as pM
    import ProcessMultipliers.lowResProcessMultipliers as low
    import Utilities.tsmultipliers as ts
    FILES = ('processMultipliers.py',)
    traces = []
    stats = {'pixels': 0, 'whole_image': 0, 'segmented': 0, 'thread_schedules': 0, 'thread_steps': 0, 'wind_stage': 0,
             'configured_runs': 0, 'low_resolution': 0, 'series': 0, 'series_rows': 0, 'northerly_pixels': 0}

    def add(n, ev, info):
        traces.append({'cfg': {'n': n, 'tol': 1000}, 'ev': ev, 'about': info})

    def finish(s, d, r, info, ev=(), n=None):
        n = s['gust'].size * s['f'] ** 2 if n is None else n
        info = dict(info, lon=s['lon'].tolist(), lat=s['lat'].tolist(), refinement=s['f'],
                    u=s['u'].tolist(), v=s['v'].tolist())
        if r[0] != 'ok':
            add(n, list(ev) + [{'t': 'ended', 'how': 'hang' if r[0] in ('hang', 'timeout') else 'exc'}],
                dict(info, error=str(r[1])[-900:]))
            return
        local, gt, gust = r[1]
        px = pixels(s, local, gust, gt)
        stats['pixels'] += len(px)
        stats['northerly_pixels'] += sum(q['b'] < 5 or q['b'] > 359995 for q in px)
        add(n, list(ev) + [{'t': 'ended', 'how': 'ok'}, {'t': 'out', 'px': px}], info)

    def collect(d):
        local, gt = read_tif(os.path.join(d, 'local_wind.tif'))
        gust, _ = read_tif(os.path.join(d, 'gust_prj.tif'))
        return local, gt, gust if gust.shape == local.shape else None
    # ---- the whole image, the segments with free threads, and the wind field stage
    for k in range(36 if c.quick else 300):
        s = make(c.rng)
        d = c.dir('m')
        mode = ['v1', 'v2', 'stage'][k % 3]
        comb = mode != 'stage' and k % 2 == 0
        mf = write_multipliers(s, d, comb)
        size = c.rng.choice([1, 2, 3, 5, 256])
        nt = c.rng.choice([1, 2, 4])
        lo, la = s['lon'] - s['res'] / 2, s['lat'] - s['res'] / 2

        def work():
            fakempi.no_mpi()
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if mode == 'v1':
                pM.processMult(s['gust'], s['u'], s['v'], lo, la, d, combined_mulipliers_file=mf)
            elif mode == 'v2':
                pM.processMultV2(s['gust'], s['u'], s['v'], lo, la, d, list(BANDS), nt, size, 500,
                                 combined_mulipliers_file=mf)
            else:
                w = wind.WindfieldGenerator(Cfg(), multipliers='m4_ne.tif', windfieldPath=d)

                class T(object):
                    trackId = (3, 4)
                flip = np.flipud
                w.calcLocalWindfield([(T(), (flip(s['gust']), flip(s['u']) * 0, flip(s['u']), flip(s['v']),
                                             flip(s['gust']) * 0 + 1e5, s['lon'], flip(s['lat'])))])
            return collect(d)
        r = c.call(work, timeout=30)
        shutil.rmtree(d)
        stats[{'v1': 'whole_image', 'v2': 'segmented', 'stage': 'wind_stage'}[mode]] += 1
        finish(s, d, r, {'mode': mode, 'combined': comb, 'threads': nt, 'segment': size})
    # ---- chosen schedules of the threads
    nsched = 48 if c.quick else 160
    plan = []
    for k in range(nsched):
        s = make(c.rng)
        size = c.rng.choice([1, 2, 2, 3]) * s['f']
        plan.append((k, s, size, c.rng.choice([2, 3, 4]), c.rng.random() < .5, c.rng.randrange(10 ** 6)))

    def scheduled(job):
        k, s, size, nt, comb, seed = job
        rng = random.Random(seed)
        tc.quiet()
        d = os.path.join(base, 's%d' % k)
        os.mkdir(d)
        mf = write_multipliers(s, d, comb)
        if k % 2:
            order, rep = list(orders[k % len(orders)]['order']), rng.randint(1, 4)
            seq = [t for t in order for _ in range(rep)]
            free_pick = threadsched.delays(rng, .05, .5)

            def picker(free, hot):
                while seq:
                    t = seq.pop(0)
                    if t in free:
                        return t
                return free_pick(free, hot)
        else:
            picker = threadsched.delays(rng, rng.choice([.02, .05, .2]), rng.choice([.2, .5, .9]))
        fakempi.no_mpi()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        ev, cur = [], [None]
        watch(ev, lambda: cur[0])
        lo, la = s['lon'] - s['res'] / 2, s['lat'] - s['res'] / 2

        def go():
            pM.processMultV2(s['gust'], s['u'], s['v'], lo, la, d, list(BANDS), nt, size, 500,
                             combined_mulipliers_file=mf)

        r, sch = threadsched.run(go, FILES, picker, on_start=lambda x: cur.__setitem__(0, x))
        if r[0] == 'ok':
            r = ('ok', collect(d))
        return r, nested(list(ev)), sch.steps, len(sch.ids)
    base = c.dir('sched')
    for job, r in zip(plan, c.pmap(lambda j: c.call(scheduled, j, timeout=60), plan, n=6)):
        k, s, size, nt, comb, seed = job
        if r[0] != 'ok':
            finish(s, None, r, {'mode': 'schedule', 'threads': nt, 'segment': size, 'seed': seed})
            continue
        r, ev, steps, used = r[1]
        stats['thread_schedules'] += 1
        stats['thread_steps'] += steps
        finish(s, None, r, {'mode': 'schedule', 'threads': nt, 'segment': size, 'seed': seed}, ev)
    shutil.rmtree(base)
    # ---- from a configuration file, and the low-resolution tool
    from netCDF4 import Dataset

    def write_nc(p, s):
        nc = Dataset(p, 'w')
        for n, z in (('lat', s['lat']), ('lon', s['lon'])):
            nc.createDimension(n, len(z))
            nc.createVariable(n, 'f8', (n,))[:] = z
        for n, z in (('vmax', s['gust']), ('ua', s['u']), ('va', s['v']), ('slp', s['gust'] * 0 + 1e5)):
            nc.createVariable(n, 'f4', ('lat', 'lon'))[:] = z
        nc.close()
    for k in range(30 if c.quick else 200):
        kind = ['whole', 'low', 'overlap', 'given', 'raw'][k % 5]
        s = make(c.rng, fine=kind != 'low')
        while kind in ('overlap', 'given') and s['f'] % 2:
            s = make(c.rng)
        d = c.dir('conf') + '/'
        wd = os.path.join(d, 'gusts_out') + '/'
        gd = os.path.join(d, 'my_gust_files') + '/'
        os.makedirs(wd)
        os.makedirs(gd)
        want, extent = None, None
        lowres = kind == 'low'
        if kind == 'raw':
            tiles = write_raw(s, d, c.rng)
        elif kind == 'whole' or lowres:
            mf = write_multipliers(s, d, True)
        else:
            # multipliers for a part of the region, in pixels from its corner; the winds are known from the
            # first to the last point
            f, (ny, nx), q = s['f'], s['m']['n'].shape, s['res'] / s['f']
            x0, y0 = s['lon'][0] - s['res'] / 2, s['lat'][0] + s['res'] / 2
            i0, j0 = c.rng.randint(0, f), c.rng.randint(0, f)
            i1, j1 = c.rng.randint(max(nx - f, i0 + 1), nx), c.rng.randint(max(ny - f, j0 + 1), ny)
            mf = os.path.join(d, 'multi.tif')
            write_tif(mf, [s['m'][n][j0:j1, i0:i1] for n in BANDS], x0 + q * i0, y0 - q * j0, q)
            if kind == 'overlap':
                i0, j0, i1, j1 = max(i0, f // 2), max(j0, f // 2), min(i1, nx - f // 2), min(j1, ny - f // 2)
            else:
                i1, j1 = c.rng.randint(i0 + 1, i1), c.rng.randint(j0 + 1, j1)
                extent = {'xMin': float(x0 + q * i0), 'xMax': float(x0 + q * i1), 'yMin': float(y0 - q * j1), 'yMax': float(y0 - q * j0)}
            want = (i1 - i0) * (j1 - j0)
        names = ['gust.001-00002.nc'] + (['gust.000-00001.nc'] if lowres else [])
        for n in names:
            write_nc(os.path.join(gd, n), s)
        sec = {'Output': {'Working_dir': wd},
               'Logging': {'LogFile': os.path.join(d, 'log.txt'), 'LogLevel': 'CRITICAL', 'Verbose': 'False', 'Datestamp': 'False'}}
        if lowres:
            sec['Input'] = {'Gust_dir': gd, 'Multipliers': mf}
        else:
            sec['Input'] = {'Gust_file': os.path.join(gd, names[0])}
            if kind == 'raw':
                sec['Input'].update({'RawMultipliers': os.path.join(d, 'raw') + '/', 'Tiles': ', '.join(tiles)})
            else:
                sec['Input']['Multipliers'] = mf
            if kind == 'whole':
                sec['Input']['ExtentApplied'] = 'Yes'
            if extent:
                sec['Input']['Extent'] = repr(extent)
            sec['ProcessMultipliers'] = {'ProcessMultiVersion': c.rng.choice('12'), 'MaxWorkingThreads': c.rng.randint(1, 4),
                                         'ProcessingSegmentSize': c.rng.randint(1, 9)}
        ini = tc.write_ini(os.path.join(d, 'c.ini'), sec)

        def work():
            fakempi.no_mpi()
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            sys.argv = ['x', '-c', ini]
            if not lowres:
                pM.run()
                return collect(wd)
            low.run()
            out = []
            for n in names:
                nc = Dataset(os.path.join(gd, 'wm_' + n))
                y = np.array(nc.variables['lat'][:])
                z = np.array(nc.variables['vmax'][:]).astype(float)
                x = np.array(nc.variables['lon'][:])
                nc.close()
                out.append((z, (x[0] - s['res'] / 2, s['res'], 0, y[0] + (s['res'] / 2 if y[1] < y[0] else -s['res'] / 2), 0,
                                y[1] - y[0]), None))
            return out
        r = c.call(work, timeout=60)
        shutil.rmtree(d)
        if lowres:
            if r[0] != 'ok':
                finish(s, d, r, {'mode': 'low resolution'})
            for q in (r[1] if r[0] == 'ok' else []):
                # missing multipliers may be mixed into their neighbours here
                finish(s, d, ('ok', q), {'mode': 'low resolution'})
            stats['low_resolution'] += 1
        else:
            finish(s, d, r, {'mode': 'configured', 'settings': sec['ProcessMultipliers'], 'kind': kind, 'extent': extent}, n=want)
            stats['configured_runs'] += 1
            stats[kind + '_multipliers'] = stats.get(kind + '_multipliers', 0) + 1
    # ---- time series
    import shapefile
    for k in range(24 if c.quick else 200):
        d = c.dir('ts')
        ids = c.rng.sample(['7', '94120', 'A1', 'Port'], c.rng.randint(1, 3))
        rows, mult = {}, {}
        for n in ids:
            mult[n] = [round(c.rng.uniform(.6, 1.4), 2) for _ in DIRS]
            rows[n] = []
            for i in range(c.rng.choice([1, 2, 5, 9])):
                g = round(c.rng.uniform(1, 60), 2)
                b = c.rng.choice([c.rng.uniform(0, 360), 45. * c.rng.randrange(8), 0., 359.99])
                a = math.radians(b)
                u, v = round(-g * math.sin(a), 2), round(-g * math.cos(a), 2)
                rows[n].append((n, '1990-01-%02d %02d:00' % (1 + i // 24, i % 24), 110.5, -20.25, g, u, v, round(b, 2), round(c.rng.uniform(95000, 101000), 2)))
            if c.rng.random() < .3:
                rows[n].append((n, '1990-02-01 00:00', 110.5, -20.25, 0., 0., 0., 0., 100000.))
        whole = k % 3 == 2

        def work():
            fakempi.no_mpi()
            p = os.path.join(d, 'output', 'process', 'timeseries')
            os.makedirs(os.path.join(p, 'local'))
            for n in ids:
                with open(os.path.join(p, 'ts.%s.csv' % n), 'w') as fh:
                    fh.write('Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure\n')
                    for r in rows[n]:
                        fh.write('%s,%s,%9.5f,%9.5f,%6.2f,%6.2f,%6.2f,%6.2f,%7.2f\n' % r)
            if whole:
                f = os.path.join(d, 'stn.shp')
                w = shapefile.Writer(f, shapeType=shapefile.POINT)
                w.field('WMO', 'C', 12)
                for n in c.rng.sample(DIRS, 8):
                    w.field('m4_' + n, 'N', 12, 4)
                order = [x[0][3:] for x in w.fields if x[0].startswith('m4_')]
                for n in ids:
                    w.point(110.5, -20.25)
                    w.record(n, *[mult[n][DIRS.index(q)] for q in order])
                w.close()
                ts.process_timeseries(tc.write_ini(os.path.join(d, 'c.ini'), {
                    'Input': {'LocationFile': f}, 'Timeseries': {'StationID': 'WMO', 'LocationFile': f},
                    'Output': {'Path': os.path.join(d, 'output')}}))
            else:
                for n in ids:
                    ts.tsmultiply(os.path.join(p, 'ts.%s.csv' % n), tuple(mult[n]), os.path.join(p, 'local', 'ts.%s.csv' % n))
            out = {}
            for n in ids:
                out[n] = [float(r['Speed']) for r in csv.DictReader(open(os.path.join(p, 'local', 'ts.%s.csv' % n)))]
            tops = None
            if whole:
                tops = {r['Station']: float(r['Speed']) for r in csv.DictReader(open(os.path.join(p, 'local', 'local_maxima.csv')))}
            return out, tops
        r = c.call(work, timeout=30)
        shutil.rmtree(d)
        stats['series'] += len(ids)
        for n in ids:
            info = {'mode': 'series', 'rows': rows[n], 'multipliers': mult[n], 'whole': whole}
            if r[0] != 'ok':
                add(len(rows[n]), [{'t': 'ended', 'how': 'exc'}], dict(info, error=str(r[1])[-600:]))
                continue
            out, tops = r[1]
            rr = [{'b': came_from(q[5], q[6]) if q[4] else 0, 'g': milli(q[4]), 'm': [milli(z) for z in mult[n]],
                   'l': milli(l)} for q, l in zip(rows[n], out[n])]
            if len(out[n]) != len(rows[n]):
                rr = []
            ev = [{'t': 'ended', 'how': 'ok'}, {'t': 'rows', 'rows': rr}]
            if tops is not None:
                ev.append({'t': 'top', 'l': int(round(tops.get(n, -1) * 100)),
                           'rows': [{'l': int(round(q['l'] / 10. - 1e-9))} for q in rr]})
            stats['series_rows'] += len(rr)
            add(len(rows[n]), ev, info)
    n = len(traces)
    ctrl = []
    for t in traces:
        for i, e in enumerate(t['ev']):
            if e['t'] == 'out' and len(ctrl) < 60:
                j = c.rng.randrange(len(e['px']))
                q = e['px'][j]
                others = [z for z in q['m'] if abs(z - q['m'][(q['b'] + 22500) // 45000 % 8]) > 40]
                if others and 1000 < q['b'] % 45000 < 44000 and not 21000 < q['b'] % 45000 < 24000:
                    w = dict(q, l=int(q['g'] * others[0] / 1000.))
                    ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:i] + [dict(e, px=e['px'][:j] + [w] + e['px'][j + 1:])]})
                ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:i] + [dict(e, px=e['px'][1:])]})
                ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:i]})
            if e['t'] == 'rows' and c.rng.random() < .2 and e['rows']:
                q = e['rows'][0]
                if q['g'] > 5000:
                    ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:i] + [dict(e, rows=[dict(q, l=q['l'] + 400 + q['g'] // 20)] + e['rows'][1:])]})
            if e['t'] == 'leave' and i > 0 and t['ev'][i - 1]['t'] == 'enter' and c.rng.random() < .02:
                x = t['ev'][i - 1]
                ctrl.append({'cfg': t['cfg'], 'ev': t['ev'][:i] + [dict(x, thr=x['thr'] + 100)]})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('LocalWind', allt, expect_reject=idx)
    c.judge('LocalWind', allt, res, idx)
    c.sample({'about': {k: v for k, v in traces[-1]['about'].items() if k != 'rows'}})
    if stats['thread_steps'] < 1000 or stats['northerly_pixels'] < 5:
        raise vf.CheckError('too little exercised: %s' % stats)
    c.finish(**stats)


vf.main(run)
