"""Schedules for the multi-process runs, generated from the specified exchange."""

import fakempi


def farm(c, simulate):
    """Generated behaviours of the master/worker exchange, one of each
    (processes, tasks, send mode) class first."""
    gen = c.generate('FarmProtocol', 'FarmGen', simulate=simulate)
    c.rng.shuffle(gen)
    seen, first, rest = set(), [], []
    for g in gen:
        k = (g['cfg']['n'], g['cfg']['T'], g['cfg']['sync'])
        (rest if k in seen else first).append(g)
        seen.add(k)
    # runs of a single process have nothing to schedule
    alone = [{'cfg': {'n': 1, 'T': t, 'sync': False}, 'ev': []}
             for t in sorted(set(g['cfg']['T'] for g in gen))]
    c.rng.shuffle(alone)
    out = first + alone
    for i, g in enumerate(rest):
        out.append(g)
        if i % 6 == 5:
            out.append(alone[(i // 6) % len(alone)])
    return out


def picker(c, g, i):
    return fakempi.guided_picker([e['r'] for e in g['ev']], seed='%d/%d' % (c.seed, i))


def ending(R):
    """Trace events for the fate of every process."""
    ev = [{'t': 'end', 'r': x[1], 'ok': x[2] == 'ok'} for x in R.trace if x[0] == 'end']
    if R.status != 'done':
        ev.append({'t': 'stuck'})
    elif R.leftover:
        ev.append({'t': 'lost'})
    return ev
