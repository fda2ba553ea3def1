"""Interpolated tracks as events of the InterpTrack specification."""

import math
import sys
from datetime import datetime

BASE = datetime(1900, 1, 1)
MISSING = sys.maxsize


def minutes(t):
    """Whole minutes since 1900; -1 for a time that is not a whole minute."""
    s = (datetime(t.year, t.month, t.day, t.hour, t.minute, t.second, getattr(t, 'microsecond', 0)) - BASE)
    us = (s.days * 86400 + s.seconds) * 10 ** 6 + s.microseconds
    return us // (60 * 10 ** 6) if us % (60 * 10 ** 6) == 0 else -1


def whole(x, k, top=20000000):
    x = float(x)
    return int(round(max(-top, min(top, x * k)))) if x == x else -top


def pressure(p):
    return -1 if not 700. <= float(p) <= 1200. else whole(p, 100)


def far(a, b):
    """Great-circle distance in km."""
    la, lb = math.radians(a[1]), math.radians(b[1])
    h = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(math.radians(b[0] - a[0]) / 2) ** 2
    return 2 * 6367. * math.asin(min(1, math.sqrt(h)))


def towards(a, b):
    """Direction from a to b, degrees clockwise from north (great circle)."""
    la, lb, dx = math.radians(a[1]), math.radians(b[1]), math.radians(b[0] - a[0])
    return math.degrees(math.atan2(math.sin(dx) * math.cos(lb),
                                   math.cos(la) * math.sin(lb) - math.sin(la) * math.cos(lb) * math.cos(dx))) % 360


def points(data, when=None):
    """Interpolated points as events."""
    out = []
    times = [minutes(t) for t in (when if when is not None else data['Datetime'])]
    names = data.dtype.names
    for i, r in enumerate(data):
        cal = times[i]
        if 'Minute' in names:
            cal = minutes(datetime(*[int(r[q]) for q in ('Year', 'Month', 'Day', 'Hour', 'Minute')]))
        nxt = data[i + 1] if i + 1 < len(data) else None
        d = z = 0
        if nxt is not None:
            d = far((r['Longitude'], r['Latitude']), (nxt['Longitude'], nxt['Latitude']))
            z = towards((r['Longitude'], r['Latitude']), (nxt['Longitude'], nxt['Latitude']))
        out.append({'t': 'point', 'time': times[i], 'cal': cal, 'age': whole(float(r['TimeElapsed']), 60),
                    'x': whole(r['Longitude'], 1e4), 'y': whole(r['Latitude'], 1e4), 'p': pressure(r['CentralPressure']),
                    'e': whole(r['EnvPressure'], 100), 'r': whole(r['rMax'], 100),
                    'v': whole(r['Speed'], 100, 500000), 'd': whole(d, 100, 500000),
                    'b': whole(r['Bearing'], 10), 'z': whole(z, 10),
                    'n': int(r['CycloneNumber']) if 'CycloneNumber' in names else -1,
                    'w': whole(r['WindSpeed'], 100) if 'WindSpeed' in names else -1})
    return out


def rec(r):
    return {'t': r[0], 'x': whole(r[1], 1e4), 'y': whole(r[2], 1e4), 'p': -1 if r[3] == MISSING else whole(r[3], 100),
            'e': whole(r[4], 100), 'r': whole(r[5], 100), 'w': -1 if r[6] is None else whole(r[6], 100)}


def begin(k, t):
    return {'t': 'track', 'k': k, 'id': [int(q) for q in t.trackId]}


def events(tracks):
    ev = []
    for k, t in enumerate(tracks):
        ev += [begin(k + 1, t)] + points(t.data)
    return ev


def cfg(cases, kind, delta, ids):
    return {'tracks': [{'recs': [rec(q) for q in r], 'linear': kind == 'linear' or len(r) <= 3 or s, 'id': i}
                       for (r, s), i in zip(cases, ids)], 'delta': delta, 'tol': 2}
