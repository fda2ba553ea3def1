"""Interrupting the code under test at a chosen executed line."""

import gc
import os
import shutil
import sys
import traceback

EXIT = 41


def _tracer(root, hit):
    root = os.path.join(os.path.realpath(root), '')
    cache = {}

    def local(frame, ev, arg):
        if ev == 'line':
            hit(frame)
        return local

    def glob(frame, ev, arg):
        f = frame.f_code.co_filename
        k = cache.get(f)
        if k is None:
            k = cache[f] = os.path.isabs(f) and (os.path.realpath(f).startswith(root) or f == shutil.__file__)
        return local if k else None
    return glob


def record(root, fn, watch=None):
    """Run fn; returns (result, list of executed (file, line)); with `watch`, a
    directory, also the positions at which a new name had appeared in it."""
    seq, new = [], []
    known = set(os.listdir(watch)) if watch else set()

    def hit(frame):
        seq.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        if watch:
            x = set(os.listdir(watch)) - known
            if x:
                known.update(x)
                new.append(len(seq))
    sys.settrace(_tracer(root, hit))
    try:
        r = fn()
    finally:
        sys.settrace(None)
    return (r, seq, new) if watch else (r, seq)


class Cut(KeyboardInterrupt):
    pass


def interrupt(root, fn, at, how):
    """Run fn and interrupt it at the at-th executed line: 'kill' ends the
    process at once, 'int' raises an interrupt, 'io' an I/O error."""
    n = [0]

    def hit(frame):
        n[0] += 1
        if n[0] == at:
            sys.settrace(None)
            if how == 'kill':
                os._exit(EXIT)
            if how == 'io':
                raise OSError(28, 'No space left on device')
            raise Cut('interrupted')
    sys.settrace(_tracer(root, hit))
    try:
        return fn()
    except BaseException as e:
        # leave as an interpreter does: every local is released, files close
        sys.settrace(None)
        traceback.clear_frames(e.__traceback__)
        why = repr(e)
    finally:
        sys.settrace(None)
    gc.collect()
    raise RuntimeError('ended by ' + why)


def points(rng, seq, n):
    """n interruption points: distinct lines first, random occurrences."""
    where = {}
    for i, l in enumerate(seq):
        where.setdefault(l, []).append(i + 1)
    lines = sorted(where)
    rng.shuffle(lines)
    out = []
    while len(out) < n:
        for l in lines[:n - len(out)]:
            out.append(rng.choice(where[l]))
    return out
