"""Synthetic calibration inputs for the track generator."""

import datetime
import math
import os
import re
import numpy as np
import tc


def mslp_at(day, lat, lon, k=0):
    """The synthetic climatology: smooth, so interpolation is accurate."""
    return (1008. + 8. * np.sin(2 * np.pi * day / 365.)
            + 6. * np.sin(2 * np.pi * (lon + 40. * k) / 360.)
            + 2. * np.cos(np.pi * lat / 90.))


def write_mslp(path, k=0, pascal=False):
    from netCDF4 import Dataset
    day = np.arange(365.)
    lat = np.arange(30) * 6. - 90.
    lon = np.arange(60) * 6.
    z = mslp_at(day[:, None, None], lat[None, :, None], lon[None, None, :], k)
    nc = Dataset(path, 'w', format='NETCDF4')
    for n, v in (('time', day), ('lat', lat), ('lon', lon)):
        nc.createDimension(n, len(v))
        x = nc.createVariable(n, 'f8', (n,))
        x[:] = v
    x = nc.createVariable('slp', 'f8', ('time', 'lat', 'lon'))
    x.units = 'Pa' if pascal else 'hPa'
    x[:] = z * (100. if pascal else 1.)
    nc.close()


def write_grid(path, lon, lat, z, name='data'):
    from netCDF4 import Dataset
    nc = Dataset(path, 'w', format='NETCDF4')
    for n, v in (('lat', lat), ('lon', lon)):
        nc.createDimension(n, len(v))
        x = nc.createVariable(n, 'f8', (n,))
        x[:] = v
    x = nc.createVariable(name, 'f8', ('lat', 'lon'))
    x[:] = z
    nc.close()


def write_cdf(path, ncell, xs, rng):
    """An empirical distribution of `xs` for every cell (random weights)."""
    from netCDF4 import Dataset
    cell, x, p = [], [], []
    for k in range(ncell):
        w = np.array([rng.random() + 0.02 for _ in xs]).cumsum()
        w /= w[-1]
        cell += [k] * len(xs)
        x += list(xs)
        p += list(w)
    nc = Dataset(path, 'w', format='NETCDF4')
    nc.createDimension('n', len(x))
    for n, v in (('cell', cell), ('x', x), ('CDF', p)):
        y = nc.createVariable(n, 'f8', ('n',))
        y[:] = v
    nc.close()


def write_stats(path, ncell, rng, mu, sig, low):
    from netCDF4 import Dataset
    nc = Dataset(path, 'w', format='NETCDF4')
    nc.createDimension('cell', ncell)
    for pre in ('', 'l'):
        alpha = np.array([rng.uniform(0.2, 0.9) for _ in range(ncell)])
        vals = {'mu': [rng.uniform(*mu) for _ in range(ncell)],
                'sig': [rng.uniform(*sig) for _ in range(ncell)],
                'alpha': alpha, 'phi': np.sqrt(1 - alpha ** 2),
                'min': [rng.uniform(*low) for _ in range(ncell)]}
        for n, v in vals.items():
            y = nc.createVariable(pre + n, 'f8', ('cell',))
            y[:] = v
    nc.close()


def make(d, rng, dom, space=5, mu_b=(0., 6.28), sig_b=(0.2, 1.5), speed=(5., 40.),
         rate=(-0.5, 0.2), rsig=(0.2, 1.2), land=0.2, k=0, edge=False, strong=False,
         pascal=False, late=False):
    """Write a complete set of generator inputs under directory d; dom is
    (xMin, xMax, yMin, yMax). Returns the configuration sections."""
    x0, x1, y0, y1 = dom
    out = os.path.join(d, 'output')
    proc = os.path.join(out, 'process')
    os.makedirs(proc)
    os.makedirs(os.path.join(out, 'tracks'))
    nx, ny = (x1 - x0) // space, (y1 - y0) // space
    ncell = nx * ny
    # genesis: cell centres strictly inside, or everywhere up to the edge
    lon = np.arange(x0 + 0.5, x1, 1.0)
    lat = np.arange(y0 + 0.5, y1, 1.0)
    z = np.array([[rng.random() for _ in lon] for _ in lat])
    if not edge:
        m = 3
        z[:m] = z[-m:] = 0
        z[:, :m] = z[:, -m:] = 0
    else:
        z[2:-2, 2:-2] *= 0.1
    write_grid(os.path.join(proc, 'originPDF.nc'), lon, lat, z, 'gpdf')
    pr = np.linspace(930., 985., 40) if strong else np.linspace(960., 1012., 60)
    for n, xs in (('bearing', np.arange(0., 360., 7.)), ('speed', np.linspace(2., speed[1], 30)),
                  ('pressure', pr), ('day', np.arange(358., 366.) if late else np.arange(1., 366., 4.))):
        write_cdf(os.path.join(proc, 'all_cell_cdf_init_%s.nc' % n), ncell, xs, rng)
    write_stats(os.path.join(proc, 'speed_stats.nc'), ncell, rng, speed, (1., 10.), (0., 2.))
    write_stats(os.path.join(proc, 'pressure_stats.nc'), ncell, rng, (960., 990.), (5., 15.),
                (890., 950.))
    write_stats(os.path.join(proc, 'bearing_stats.nc'), ncell, rng, mu_b, sig_b, (0., 1.))
    write_stats(os.path.join(proc, 'pressure_rate_stats.nc'), ncell, rng, rate, rsig, (-5., -1.))
    for f in ('all_speed', 'all_pressure', 'all_bearing', 'pressure_rate', 'all_lon_lat'):
        open(os.path.join(proc, f), 'w').close()
    write_mslp(os.path.join(d, 'mslp.nc'), k, pascal)
    glon = np.arange(0., 361., 2.)
    glat = np.arange(-90., 91., 2.)
    g = (np.array([[rng.random() for _ in glon] for _ in glat]) < land).astype(float)
    write_grid(os.path.join(d, 'land.nc'), glon, glat, g, 'landmask')
    return {
        'Region': {'gridLimit': "{'xMin':%d,'xMax':%d,'yMin':%d,'yMax':%d}" % dom,
                   'gridSpace': "{'x':%d,'y':%d}" % (space, space),
                   'gridInc': "{'x':1.0,'y':0.5}"},
        'TrackGenerator': {'gridLimit': "{'xMin':%d,'xMax':%d,'yMin':%d,'yMax':%d}" % dom,
                           'Format': 'csv'},
        'Input': {'MSLPFile': os.path.join(d, 'mslp.nc'), 'MSLPVariableName': 'slp',
                  'LandMask': os.path.join(d, 'land.nc')},
        'Output': {'Path': out}}


def read_tracks(path):
    """Contents of a track file, read without the code under test: list of
    (trackId text, time values, record array)."""
    from netCDF4 import Dataset
    nc = Dataset(path)
    try:
        out = []
        for name in sorted(nc.groups['tracks'].groups):
            g = nc.groups['tracks'].groups[name]
            v = g.variables['track']
            out.append((name, v.trackId, np.array(g.variables['time'][:]), np.array(v[:])))
        return out
    finally:
        nc.close()


COLS = ('CycloneNumber', 'Datetime', 'TimeElapsed', 'Longitude', 'Latitude', 'Speed',
        'Bearing', 'CentralPressure', 'EnvPressure', 'rMax')


def write_tracks(path, tracks, sim, ids=None):
    """A track file in the generator's format. tracks: list of lists of
    (hours since 1900, age, lon, lat, speed, bearing, pc, pe, rmax)."""
    from netCDF4 import Dataset
    dt = np.dtype([('CycloneNumber', 'i4'), ('Datetime', 'f8'), ('TimeElapsed', 'f4')] +
                  [(n, 'f8') for n in COLS[3:]])
    nc = Dataset(path, 'w', format='NETCDF4')
    tg = nc.createGroup('tracks')
    for k, rows in enumerate(tracks):
        n = ids[k] if ids else k
        g = tg.createGroup('tracks-%04d' % n)
        ct = g.createCompoundType(dt, 'track_dtype')
        g.createDimension('time', None)
        tm = g.createVariable('time', 'f8', ('time',))
        v = g.createVariable('track', ct, ('time',))
        rec = np.array([(n,) + tuple(r) for r in rows], dtype=dt)
        tm[:] = rec['Datetime']
        tm.units = 'hours since 1900-01-01 00:00'
        tm.calendar = 'julian'
        v[:] = rec
        v.trackId = repr((n, sim))
    nc.close()


def random_track(rng, box, n, margin=1.5, hemi=None, start=None, env=None, fast=False,
                 far=0., weak=0.):
    """A storm wandering in and around box = (x0, x1, y0, y1); far: probability
    of coming from or going far away, weak: of a point without a deficit."""
    x0, x1, y0, y1 = box
    h0 = start if start is not None else rng.randint(500000, 900000)
    x, y = rng.uniform(x0 - margin, x1 + margin), rng.uniform(y0 - margin, y1 + margin)
    step = (x1 - x0) / float(max(n, 2)) * (2.5 if fast else 1.2)
    out = []
    env = env or rng.uniform(1004., 1014.)
    b = rng.uniform(0, 360)
    dt = rng.choice([1, 3])
    for i in range(n):
        if out and rng.random() < .1:        # a stationary storm
            pass
        else:
            b = (b + rng.uniform(-60, 60)) % 360
            x += step * np.sin(np.radians(b)) * rng.random()
            y += step * np.cos(np.radians(b)) * rng.random()
            x = min(max(x, x0 - margin), x1 + margin)
            y = min(max(y, y0 - margin), y1 + margin)
        px, py = x, y
        if rng.random() < .12:
            px = rng.choice([x0, x1])        # exactly on the edge
        if rng.random() < .12:
            py = rng.choice([y0, y1])
        pe = env + rng.uniform(-1.5, 1.5)
        out.append((h0 + i * dt, i * dt, round(px, 3), round(py, 3), rng.uniform(2., 45.), b,
                    pe - rng.uniform(3., 70.), pe, rng.uniform(12., 60.)))
        if weak and rng.random() < weak:
            out[-1] = out[-1][:6] + (pe + rng.choice([0., 0., 2.]),) + out[-1][7:]
    if far and n > 2:
        for i in (0, n - 1):
            if rng.random() < far:
                dx, dy = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1)])
                r = out[i]
                out[i] = r[:2] + (round(rng.choice([x0, x1] if not dx else [[x0, x1][dx > 0]]) + dx * rng.uniform(4., 9.), 3),
                                  round(rng.uniform(y0, y1) + dy * (y1 - y0 + rng.uniform(4., 9.)), 3)) + r[4:]
    return out


FIELDS = {'age': 'TimeElapsed', 'x': 'Longitude', 'y': 'Latitude', 'speed': 'Speed',
          'bear': 'Bearing', 'p': 'CentralPressure', 'env': 'EnvPressure', 'r': 'rMax'}


def move(lon, lat, bearing, km):
    """Reference great-circle step."""
    a, p, b = math.radians(lon), math.radians(lat), math.radians(bearing)
    d = km / 6367.
    q = math.asin(math.sin(p) * math.cos(d) + math.cos(p) * math.sin(d) * math.cos(b))
    l = a + math.atan2(math.sin(b) * math.sin(d) * math.cos(p), math.cos(d) - math.sin(p) * math.sin(q))
    return math.degrees(l), math.degrees(q)


def from_file(path):
    from netCDF4 import Dataset, num2date
    nc = Dataset(path)
    out = []
    for name in sorted(nc.groups['tracks'].groups):
        g = nc.groups['tracks'].groups[name]
        v = g.variables['track']
        rec = np.array(v[:])
        tm = g.variables['time']
        ds = [datetime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second) +
              datetime.timedelta(seconds=1 if d.microsecond > 500000 else 0)
              for d in num2date(rec['Datetime'], tm.units, tm.calendar)]
        tid = tuple(int(x) for x in re.findall(r'-?\d+', v.trackId))
        out.append((tid, ds, {k: [float(x) for x in rec[c]] for k, c in FIELDS.items()}))
    nc.close()
    return out


def from_track(t):
    return (tuple(int(x) for x in t.trackId), list(t.Datetime),
            {k: [float(x) for x in getattr(t, c)] for k, c in FIELDS.items()})
