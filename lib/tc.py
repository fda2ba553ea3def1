"""Synthetic inputs for the code under test (written with netCDF4 directly,
never through the code that is being checked)."""

import os
import numpy as np


def write_ini(path, sections):
    with open(path, 'w') as fh:
        for s, opts in sections.items():
            fh.write('[%s]\n' % s)
            for k, v in opts.items():
                fh.write('%s=%s\n' % (k, v))
            fh.write('\n')
    return path


def write_gust(path, lon, lat, vmax, extra=None):
    from netCDF4 import Dataset
    nc = Dataset(path, 'w', format='NETCDF4')
    nc.createDimension('lat', len(lat))
    nc.createDimension('lon', len(lon))
    for n, v in (('lat', lat), ('lon', lon)):
        x = nc.createVariable(n, 'f8', (n,))
        x[:] = v
    names = {'vmax': vmax}
    names.update(extra or {})
    for n, v in names.items():
        x = nc.createVariable(n, 'f8', ('lat', 'lon'), fill_value=-9999.)
        x[:, :] = v
    nc.close()


def write_companions(d, lon, lat, ids):
    """What the wind-field stage leaves beside the gust files when it plots its
    output, records every time step, applies multipliers or was interrupted."""
    from netCDF4 import Dataset
    for n, (a, b) in enumerate(ids):
        if n % 2 == 0:
            nc = Dataset(os.path.join(d, 'evolution.%03d-%05d.nc' % (a, b)), 'w')
            nc.createDimension('time', None)
            for k, v in (('lat', lat), ('lon', lon)):
                v = np.append(v[0] - .5, v)          # margin around the domain
                nc.createDimension(k, len(v))
                nc.createVariable(k, 'f4', (k,))[:] = v
            nc.createVariable('time', 'f8', ('time',))[:] = [0., 1.]
            for k in ('gust_speed', 'velocity_east', 'velocity_north', 'pressure'):
                x = nc.createVariable(k, 'f4', ('time', 'lat', 'lon'))
                x[:] = np.full((2, len(lat) + 1, len(lon) + 1), 99.)
            nc.close()
        if n % 2 == 1 or len(ids) == 1:
            for q in ('gust.%03d-%05d.png', 'gust.%03d-%05d.nc.part', 'local_wind.%03d-%05d.tif'):
                with open(os.path.join(d, q % (a, b)), 'wb') as f:
                    f.write(b'\x89PNG\r\n\x1a\n')


def read_nc(path, names):
    from netCDF4 import Dataset
    nc = Dataset(path)
    nc.set_auto_mask(False)
    try:
        return {n: np.array(nc.variables[n][:]) for n in names if n in nc.variables}
    finally:
        nc.close()


def quiet():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def limits(lo, la, x1, y1):
    return "{'xMin':%r,'xMax':%r,'yMin':%r,'yMax':%r}" % (lo, x1, la, y1)
