"""Controlled interleaving of the threads of one process.

Threads created while a Scheduler is active stop before every line of the
files under test; one thread at a time is allowed to go on, chosen by
`picker(waiting thread numbers, those of them in the middle of something)`.  A thread that does not reach its
next line within `slice_` seconds is blocked (on a lock, a queue, ...) and is
left alone until it comes back.
"""

import os
import threading
import time


class Scheduler(object):
    def __init__(self, files, picker, slice_=0.012, outside=None):
        self.outside = outside   # a thread that is left alone
        self.files, self.picker, self.slice = tuple(files), picker, slice_
        self.cv = threading.Condition()
        self.ids = {}            # thread ident -> number
        self.waiting = {}        # number -> allowed to go on
        self.running = {}        # number -> time of its permission
        self.hot = set()         # threads in the middle of something
        self.steps = 0
        self.first = 0
        self.last = time.time()  # of the last permission
        self.active = True
        self.order = []
        self.thread = threading.Thread(target=self._loop, daemon=True)

    # ---- in the threads under control
    def number(self):
        return self.ids.setdefault(threading.get_ident(), len(self.ids) + 1)

    def stop_here(self, hot=False):
        if not self.active or threading.current_thread() in (self.outside, self.main):
            return
        with self.cv:
            k = self.number()
            self.running.pop(k, None)
            self.waiting[k] = False
            (self.hot.add if hot else self.hot.discard)(k)
            self.first = self.first or time.time()
            self.cv.notify_all()
            while self.active and not self.waiting[k]:
                self.cv.wait(1.)
            self.waiting.pop(k, None)

    def _trace(self, frame, event, arg):
        if threading.current_thread() is self.outside:
            return None
        if event == 'call' and frame.f_code.co_filename.endswith(self.files):
            return self._line
        if event == 'call' and frame.f_code.co_filename.endswith(os.sep + 'queue.py'):
            self.stop_here(hot=True)      # about to use a queue
        return None

    def _line(self, frame, event, arg):
        if event == 'line':
            self.stop_here()
        return self._line

    # ---- the scheduler's own thread
    def _loop(self):
        with self.cv:
            while self.active:
                now = time.time()
                busy = [k for k, t in self.running.items() if now - t < self.slice]
                free = sorted(k for k, go in self.waiting.items() if not go)
                if self.steps == 0 and free and now - self.first < .03:
                    self.cv.wait(.01)      # let the threads arrive
                    continue
                if busy or not free:
                    self.cv.wait(self.slice / 3. if busy else .05)
                    continue
                k = self.picker(free, [x for x in free if x in self.hot])
                self.steps += 1
                self.order.append(k)
                self.last = self.running[k] = now
                self.waiting[k] = True
                self.cv.notify_all()

    def __enter__(self):
        self.main = threading.current_thread()
        self.thread.start()
        threading.settrace(self._trace)
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        with self.cv:
            self.active = False
            self.cv.notify_all()


def run(fn, files, picker, idle=15., on_start=None):
    """fn() in a thread of its own under the scheduler.  Returns
    ('ok', value), ('exc', text) or ('hang', None), and the scheduler."""
    import traceback
    out = []

    def body():
        try:
            out.append(('ok', fn()))
        except BaseException:
            out.append(('exc', traceback.format_exc()))
    t = threading.Thread(target=body, daemon=True)
    with Scheduler(files, picker, outside=t) as s:
        if on_start:
            on_start(s)
        t.start()
        while t.is_alive():
            t.join(.05)
            if time.time() - s.last > idle:
                return ('hang', None), s
    return out[0], s


def delays(rng, p, q):
    """Threads go on for a while; with probability p (q in the middle of
    something) a thread is put aside for many steps."""
    aside, n, last, was = {}, [0], [None], set()

    def pick(free, hot):
        n[0] += 1
        for k in set(hot) - was:
            if rng.random() < q:
                aside[k] = n[0] + rng.choice([20, 80, 300, 2000])
        was.clear()
        was.update(hot)
        ready = [k for k in free if aside.get(k, 0) <= n[0]]
        if not ready:
            ready = [min(free, key=lambda k: aside[k])]
        if last[0] not in ready or rng.random() < .1:
            last[0] = rng.choice(ready)
        if rng.random() < p:
            aside[last[0]] = n[0] + 1 + rng.choice([5, 20, 80, 300])
        return last[0]
    return pick
