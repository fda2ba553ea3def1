"""P09: tiles partition the hazard domain."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import tc
import numpy as np


def milli(v):
    return [int(x) for x in np.round(np.asarray(v, dtype=float) * 1000)]


def observe(gl, lon, lat, xs, ys):
    import hazard
    kw = {} if xs is None else dict(xstep=xs, ystep=ys)
    tg = hazard.TileGrid(gl, lon, lat, **kw)
    tiles = hazard.getTiles(tg)
    lo, la = tg.getDomainExtent()
    return ([tuple(int(v) for v in t) for t in tiles],
            [tuple(int(v) for v in tg.getGridLimit(k)) for k in range(tg.num_tiles)],
            milli(lo), milli(la), int(tg.num_tiles))


def trace(c, gl, lon, lat, xs, ys, about):
    """Observe the real division and record it as a trace."""
    cfg = {'lon': milli(lon), 'lat': milli(lat), 'x0': milli([gl['xMin']])[0],
           'x1': milli([gl['xMax']])[0], 'y0': milli([gl['yMin']])[0],
           'y1': milli([gl['yMax']])[0], 'xs': xs or 100, 'ys': ys or 100, 'nt': 0}
    try:
        tiles, lims, lo, la, nt = observe(gl, lon, lat, xs, ys)
    except Exception as e:          # noqa
        return {'cfg': cfg, 'ev': [{'t': 'fail', 'what': repr(e)}], 'about': about}
    cfg['nt'] = nt
    ev = [{'t': 'tile', 'k': k, 'x1': t[0], 'x2': t[1], 'y1': t[2], 'y2': t[3]}
          for k, t in enumerate(tiles)]
    if lims != tiles:
        ev.append({'t': 'fail', 'what': 'tile list and tile lookup disagree'})
    ev.append({'t': 'extent', 'lon': lo, 'lat': la})
    return {'cfg': cfg, 'ev': ev, 'about': about}


def run():
    c = vf.Check('P09')
    c.source()
    tc.quiet()
    c.model_check('Tiling', min_states=1000)
    gen = c.generate('Tiling', 'TilingGen')
    c.rng.shuffle(gen)
    if c.quick:
        gen = gen[:2500]
    traces = []
    for nx, ny, xs, ys, ox, oy in gen:
        res = c.rng.choice([0.05, 0.1, 0.25, 0.02, 1.0])
        # coordinates anywhere on the globe, in steps of the resolution
        i0 = c.rng.randrange(int(100 / res), int(170 / res))
        j0 = c.rng.randrange(int(-40 / res), int(35 / res))
        lon = np.round((i0 + np.arange(nx + 2 * ox)) * res, 6)
        lat = np.round((j0 + np.arange(ny + 2 * oy)) * res, 6)
        mode = c.rng.randrange(3)
        if mode == 1:       # as single precision, the way files may store it
            lon, lat = lon.astype('f').astype('d'), lat.astype('f').astype('d')
        elif mode == 2:     # accumulated rounding of an arange
            lon = lon[0] + res * np.arange(len(lon))
            lat = lat[0] + res * np.arange(len(lat))
        gl = {'xMin': round((i0 + ox) * res, 6), 'xMax': round((i0 + ox + nx - 1) * res, 6),
              'yMin': round((j0 + oy) * res, 6), 'yMax': round((j0 + oy + ny - 1) * res, 6)}
        traces.append(trace(c, gl, lon, lat, xs, ys,
                            {'domain': gl, 'cells': [nx, ny], 'tile': [xs, ys],
                             'margin': [ox, oy], 'resolution': res}))
    # every limit on a 0.05 degree grid, as each of the four domain edges
    for i in range(0, 7200):
        if c.quick and i % 4 != c.seed % 4 and not 2000 < i < 3600:
            continue
        x = round(i * 0.05, 2)
        lon = np.round(x + 0.05 * np.arange(-3, 4), 4)
        y = round(-40 + (i % 1600) * 0.05, 2)
        lat = np.round(y + 0.05 * np.arange(-3, 4), 4)
        s = 1 if i % 2 else -1
        gl = {'xMin': min(x, round(x - s * 0.1, 4)), 'xMax': max(x, round(x - s * 0.1, 4)),
              'yMin': min(y, round(y - s * 0.1, 4)), 'yMax': max(y, round(y - s * 0.1, 4))}
        traces.append(trace(c, gl, lon, lat, 2, 2, {'domain': gl, 'edge': x}))
    # realistic sizes with the default tile size
    big = 3 if c.quick else 12
    for _ in range(big):
        nx, ny = c.rng.choice([99, 100, 101, 199, 201, 130]), c.rng.choice([100, 37, 101, 150])
        ox = c.rng.randint(0, 3)
        res = 0.05
        i0 = c.rng.randrange(2200, 3000)
        lon = np.round((i0 + np.arange(nx + 2 * ox)) * res, 6)
        lat = np.round((-500 + np.arange(ny + 2 * ox)) * res, 6)
        gl = {'xMin': float(lon[ox]), 'xMax': float(lon[ox + nx - 1]),
              'yMin': float(lat[ox]), 'yMax': float(lat[ox + ny - 1])}
        traces.append(trace(c, gl, lon, lat, None, None, {'domain': gl, 'cells': [nx, ny]}))
    # long narrow domains, where rounding of the number of tiles would show
    for i in range(60 if c.quick else 400):
        nx, ny = c.rng.choice([c.rng.randint(90, 480), 100 * c.rng.randint(1, 4) + c.rng.randint(-2, 2)]), \
            c.rng.randint(1, 3)
        if i % 2:
            nx, ny = ny, nx
        ts = c.rng.choice([None, None, c.rng.randint(7, 150)])
        i0 = c.rng.randrange(2200, 3000)
        lon = np.round((i0 + np.arange(nx + 2)) * 0.05, 6)
        lat = np.round((-500 + np.arange(ny + 2)) * 0.05, 6)
        gl = {'xMin': float(lon[1]), 'xMax': float(lon[nx]),
              'yMin': float(lat[1]), 'yMax': float(lat[ny])}
        traces.append(trace(c, gl, lon, lat, ts, ts, {'domain': gl, 'cells': [nx, ny], 'tile': ts}))
    for t in c.rng.sample(traces, 3):
        c.sample(t)
    n = len(traces)
    ctrl = []
    for t in traces[:40]:
        tiles = [e for e in t['ev'] if e['t'] == 'tile']
        if not tiles:
            continue
        for kind in range(4):
            ev = [dict(e) for e in t['ev']]
            if kind == 0:
                ev[0]['x2'] += 1
            elif kind == 1:
                ev[0]['y1'] += 1
            elif kind == 2:
                ev = [ev[0]] + ev
            else:
                ev[-1] = dict(ev[-1], lat=[v + 50 for v in ev[-1].get('lat', [])])
            ctrl.append({'cfg': t['cfg'], 'ev': ev})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Tiling', allt, expect_reject=idx)
    c.judge('Tiling', allt, res, idx)
    c.finish(domains=n, exhaustive=False)


vf.main(run)
