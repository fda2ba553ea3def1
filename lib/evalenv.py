"""Inputs for the evaluation modules, and running them without drawing."""

import os
import random
from datetime import datetime, timedelta
import numpy as np
import tc
import trackenv

T0 = datetime(1900, 1, 1)


def no_drawing():
    """Figures are composed but neither drawn nor saved."""
    import importlib
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    seen = []

    def subs(k):
        for s in k.__subclasses__():
            if s not in seen:
                seen.append(s)
                subs(s)
    for m in ('maps', 'curves', 'figures'):
        importlib.import_module('PlotInterface.' + m)
    subs(Figure)
    for k in seen:
        if k.__module__.startswith('PlotInterface') and 'plot' in vars(k):
            k.plot = lambda self, *a, **b: None
    FigureCanvasAgg.print_figure = lambda self, *a, **b: None


def rows(track, start=None, hour=1):
    """(lon, lat, pressure) points -> records of a track file."""
    h0 = start if start is not None else 800000
    return [(h0 + hour * i, hour * i, p[0], p[1], 15., 200., p[2], 1010., 30.) for i, p in enumerate(track)]


def write_history(path, tracks, years, hour=1, missing='0', late=()):
    """tracks: lists of (lon, lat, pressure); missing pressures are None.  Storms whose number is in late begin
    in the last hours of their year."""
    with open(path, 'w') as f:
        f.write('num,season,date,lon,lat,pressure,penv,rmax\n')
        for k, (t, y) in enumerate(zip(tracks, years)):
            for i, p in enumerate(t):
                d = (datetime(y, 12, 31, 18) if k in late else datetime(y, 1, 10)) + timedelta(hours=hour * i)
                f.write('%d,%d,%s,%r,%r,%s,1010.0,30.0\n' % (k + 1, y, d.strftime('%Y-%m-%d %H:%M'), float(p[0]), float(p[1]),
                                                      missing if p[2] is None else repr(float(p[2]))))


def build(d, limit, space, history, years, files, synyears, gates=None, hour=1, step=1.0, sims=None, missing='0', late=()):
    out = os.path.join(d, 'output')
    for s in ('tracks', 'process', os.path.join('plots', 'stats')):
        os.makedirs(os.path.join(out, s))
    write_history(os.path.join(d, 'hist.csv'), history, years, hour, missing, late)
    names = []
    for k, f in enumerate(files):
        n = 'tracks.%05d.nc' % (sims[k] if sims else k)
        trackenv.write_tracks(os.path.join(out, 'tracks', n), [rows(t) for t in f], k)
        names.append(n)
    sec = {
        'Region': {'gridLimit': tc.limits(*limit), 'gridSpace': "{'x':%r,'y':%r}" % space},
        'DataProcess': {'InputFile': os.path.join(d, 'hist.csv'), 'Source': 'HIST', 'FilterSeasons': False,
                        'StartSeason': 1900},
        'HIST': {'Columns': 'num,season,date,lon,lat,pressure,penv,rmax', 'FieldDelimiter': ',', 'NumberOfHeadingLines': 1,
                 'PressureUnits': 'hPa', 'SpeedUnits': 'mps', 'LengthUnits': 'km', 'DateFormat': '%Y-%m-%d %H:%M'},
        'TrackGenerator': {'YearsPerSimulation': synyears, 'Timestep': step},
        'Output': {'Path': out}}
    if gates is not None:
        g = os.path.join(d, 'gates.csv')
        with open(g, 'w') as f:
            for k, (x, y) in enumerate(gates):
                f.write('%d,%r,%r\n' % (k, float(x), float(y)))
        sec['Input'] = {'CoastlineGates': g}
    return tc.write_ini(os.path.join(d, 'e.ini'), sec), out
