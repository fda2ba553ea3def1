"""A deterministic message-passing world.

Every rank is a forked process that sees a stand-in `mpi4py`.  One rank runs at
a time; at every communication call it blocks and the parent decides which
blocked operation happens next, so that the complete interleaving (start order,
delivery order, order after barriers) is chosen by the caller.
"""

import os
import pickle
import random
import select
import signal
import socket
import struct
import sys
import time
import traceback
import types

ANY_SOURCE = -1
ANY_TAG = -1


def leave():
    """In a forked child: a session of its own, ended when the parent ends."""
    os.setsid()
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG
    except Exception:                                   # noqa
        pass


def _send(sock, obj):
    data = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack('<Q', len(data)) + data)


def _recvn(sock, n):
    buf = bytearray()
    while len(buf) < n:
        c = sock.recv(min(1 << 20, n - len(buf)))
        if not c:
            raise EOFError
        buf += c
    return bytes(buf)


def _recv(sock):
    n, = struct.unpack('<Q', _recvn(sock, 8))
    return pickle.loads(_recvn(sock, n))


# -------------------------------------------------------------- child side

class Status(object):
    def __init__(self):
        self.source = -1
        self.tag = -1
        self.error = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error

    def Get_count(self, *a):
        return 0


class Request(object):
    def __init__(self, comm, kind, args=None):
        self.comm, self.kind, self.args = comm, kind, args
        self.done, self.val = kind == 'send', None

    def wait(self, status=None):
        if not self.done:
            self.val = self.comm.recv(*self.args, status=status)
            self.done = True
        return self.val
    Wait = wait

    def test(self, status=None):
        if not self.done and self.comm.iprobe(*self.args):
            self.wait(status)
        return (self.done, self.val)

    def Test(self, status=None):
        return self.test(status)[0]


class Comm(object):
    def __init__(self, sock, rank, size, sync):
        self._s, self._rank, self._size, self._sync = sock, rank, size, sync
        self.name = 'MPI_COMM_WORLD'

    rank = property(lambda self: self._rank)
    size = property(lambda self: self._size)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    def _op(self, *op):
        _send(self._s, op)
        return _recv(self._s)

    # point to point
    def send(self, obj, dest=0, tag=0, _sync=None):
        if not 0 <= dest < self._size:
            raise ValueError('MPI_ERR_RANK: invalid rank %r' % (dest,))
        if tag < 0:
            raise ValueError('MPI_ERR_TAG: invalid tag %r' % (tag,))
        sync = self._sync if _sync is None else _sync
        self._op('send', dest, tag, pickle.dumps(obj, protocol=4), bool(sync))

    def ssend(self, obj, dest=0, tag=0):
        self.send(obj, dest, tag, True)

    def bsend(self, obj, dest=0, tag=0):
        self.send(obj, dest, tag, False)

    def isend(self, obj, dest=0, tag=0):
        self.send(obj, dest, tag, False)
        return Request(self, 'send')
    issend = ibsend = isend

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, tg, data = self._op('recv', source, tag)
        if status is not None:
            status.source, status.tag = src, tg
        return pickle.loads(data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, 'recv', (None, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE,
                 recvtag=ANY_TAG, status=None):
        self.send(sendobj, dest, sendtag, False)
        return self.recv(None, source, recvtag, status)

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, tg = self._op('probe', source, tag)
        if status is not None:
            status.source, status.tag = src, tg
        return True
    Probe = probe

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = self._op('iprobe', source, tag)
        if r is None:
            return False
        if status is not None:
            status.source, status.tag = r
        return True
    Iprobe = iprobe

    # buffers
    @staticmethod
    def _buf(x):
        import numpy as np
        if isinstance(x, (list, tuple)):
            x = x[0]
        if not isinstance(x, np.ndarray):
            raise TypeError('message: cannot interpret %r as a buffer' % type(x))
        return x

    def Send(self, buf, dest=0, tag=0):
        self.send(self._buf(buf).tobytes(), dest, tag)

    def Ssend(self, buf, dest=0, tag=0):
        self.send(self._buf(buf).tobytes(), dest, tag, True)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        import numpy as np
        b = self._buf(buf)
        d = np.frombuffer(self.recv(None, source, tag, status), dtype=b.dtype)
        b.flat[:d.size] = d

    # collectives
    def _coll(self, kind, root, obj):
        return pickle.loads(self._op('coll', kind, root, pickle.dumps(obj, protocol=4)))

    def barrier(self):
        self._coll('barrier', 0, None)
    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return self._coll('bcast', root, obj)

    def gather(self, obj, root=0):
        r = self._coll('gather', root, obj)
        return r if self._rank == root else None

    def allgather(self, obj):
        return self._coll('gather', 0, obj)

    def scatter(self, obj=None, root=0):
        return self._coll('scatter', root, obj)[self._rank]

    def alltoall(self, objs):
        g = self._coll('gather', 0, objs)
        return [x[self._rank] for x in g]

    def allreduce(self, obj, op=None):
        g = self._coll('gather', 0, obj)
        if callable(op):
            r = g[0]
            for x in g[1:]:
                r = op(r, x)
            return r
        return sum(g[1:], g[0])

    def reduce(self, obj, op=None, root=0):
        r = self.allreduce(obj, op)
        return r if self._rank == root else None

    def Abort(self, errorcode=0):
        os._exit(99)

    def Dup(self):
        return self

    def finalize(self):
        pass


def _install(sock, rank, size, sync):
    mpi = types.ModuleType('mpi4py.MPI')
    comm = Comm(sock, rank, size, sync)
    mpi.COMM_WORLD = comm
    mpi.COMM_SELF = comm if size == 1 else None
    mpi.ANY_SOURCE, mpi.ANY_TAG = ANY_SOURCE, ANY_TAG
    mpi.Status, mpi.Request, mpi.Comm = Status, Request, Comm
    mpi.SUM = lambda a, b: a + b
    mpi.MAX, mpi.MIN = max, min
    mpi.Init = lambda *a: None
    mpi.Finalize = lambda *a: None
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: False
    mpi.Get_processor_name = lambda: 'localhost'
    mpi.PROC_NULL = -2
    mpi.Wtime = time.time
    pkg = types.ModuleType('mpi4py')
    pkg.MPI = mpi
    pkg.__path__ = []
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = mpi
    return comm


_comm = None


def event(**kw):
    """Record an event in the global trace (no scheduling point)."""
    if _comm is not None:
        _comm._op('event', kw)


def point(name):
    """A scheduling point: other ranks may run before this one continues."""
    if _comm is not None:
        _comm._op('point', name)


def no_mpi():
    """Make `from mpi4py import MPI` fail, as on a machine without MPI."""
    sys.modules['mpi4py'] = None
    sys.modules.pop('mpi4py.MPI', None)


def shuffle_listing(seed):
    """Directory listings come in an arbitrary but fixed order."""
    import glob
    real_ls, real_glob, real_iglob = os.listdir, glob.glob, glob.iglob

    def perm(names, key):
        r = random.Random('%s/%s' % (seed, key))
        names = sorted(names)
        r.shuffle(names)
        return names

    def listdir(path='.'):
        return perm(real_ls(path), 'd')

    os.listdir = listdir
    glob.glob = lambda *a, **k: perm(real_glob(*a, **k), 'g')


# -------------------------------------------------------------- parent side

class Result(object):
    def __init__(self):
        self.outcome = {}        # rank -> ('ok', val) | ('exc', text) | ('died', st)
        self.status = 'done'     # done | deadlock | timeout
        self.pending = {}
        self.leftover = 0
        self.trace = []          # granted operations and events
        self.steps = 0

    @property
    def ok(self):
        return (self.status == 'done' and self.leftover == 0 and
                all(o[0] == 'ok' for o in self.outcome.values()))

    def problem(self):
        if self.status != 'done':
            return '%s; blocked: %s; outcomes: %s' % (
                self.status, self.pending,
                {r: (o[0] if o[0] == 'ok' else o) for r, o in self.outcome.items()})
        bad = {r: o for r, o in self.outcome.items() if o[0] != 'ok'}
        if bad:
            r = sorted(bad)[0]
            return 'process %d failed: %s' % (r, str(bad[r][1])[:1500])
        if self.leftover:
            return '%d messages never received' % self.leftover
        return None


def run(n, target, picker, sync=False, timeout=120, listing=None, rngseed=0,
        maxsteps=200000):
    """Run target(rank, n) on n ranks. picker(enabled) -> index into the list
    of enabled operations: tuples ('start', r), ('send', r, dest, tag),
    ('recv', r, source, tag), ('coll', r, kind), ('point', r, name)."""
    sys.stdout.flush()
    sys.stderr.flush()
    socks, pids = {}, {}
    for r in range(n):
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            global _comm
            try:
                leave()
                a.close()
                for s in socks.values():
                    s.close()
                _comm = _install(b, r, n, sync)
                random.seed('%s/%s/%s' % (rngseed, r, n))
                try:
                    import numpy as np
                    np.random.seed((hash((rngseed, r, n)) & 0x7fffffff))
                except ImportError:
                    pass
                if listing is not None:
                    shuffle_listing(listing)
                _comm._op('start')
                try:
                    res = ('ok', target(r, n))
                except BaseException as e:      # noqa
                    res = ('exc', '%s: %s\n%s' % (type(e).__name__, e,
                                                  traceback.format_exc()[-1500:]))
                try:
                    pickle.dumps(res)
                except Exception as e:          # noqa
                    res = ('exc', 'unpicklable %r' % e)
                _send(b, ('end', res))
                sys.stdout.flush()
            except BaseException:               # noqa
                pass
            os._exit(0)
        b.close()
        socks[r], pids[r] = a, pid
    R = Result()
    pend = {}
    queue = {}                   # (src, dst) -> [(tag, data)]
    released = set()
    live = set(range(n))
    deadline = time.time() + timeout
    collres = None

    def wait_rank(r):
        """Read from rank r until it blocks or ends."""
        while True:
            left = deadline - time.time()
            if left <= 0:
                return 'timeout'
            rd, _, _ = select.select([socks[r]], [], [], left)
            if not rd:
                return 'timeout'
            try:
                op = _recv(socks[r])
            except (EOFError, OSError):
                R.outcome[r] = ('died', 'process ended without a result')
                live.discard(r)
                return 'end'
            if op[0] == 'event':
                R.trace.append(('event', r, op[1]))
                _send(socks[r], None)
                continue
            if op[0] == 'iprobe':
                m = match(r, op[1], op[2])
                _send(socks[r], (m[0][0], queue[(m[0][0], r)][m[0][1]][0]) if m else None)
                continue
            if op[0] == 'end':
                R.outcome[r] = op[1]
                live.discard(r)
                R.trace.append(('end', r, op[1][0]))
                return 'end'
            pend[r] = op
            return 'blocked'

    def match(r, source, tag):
        out = []
        for s in range(n):
            if source not in (ANY_SOURCE, s):
                continue
            for i, (t, _) in enumerate(queue.get((s, r), ())):
                if tag in (ANY_TAG, t):
                    out.append((s, i))
                    break
        return out

    for r in range(n):
        if wait_rank(r) == 'timeout':
            R.status = 'timeout'
    while live and R.status == 'done':
        if R.steps > maxsteps:
            R.status = 'timeout'
            break
        en = []
        # a collective completes when every rank is in the same collective
        if (collres is None and not released and len(live) == n and
                all(pend[r][0] == 'coll' for r in live)):
            kinds = set((pend[r][1], pend[r][2]) for r in live)
            if len(kinds) == 1:
                kind, root = kinds.pop()
                vals = [pickle.loads(pend[r][3]) for r in range(n)]
                collres = {'barrier': None, 'bcast': vals[root], 'gather': vals,
                           'scatter': vals[root]}[kind]
                released = set(live)
        for r in sorted(live):
            op = pend[r]
            if op[0] in ('start', 'point'):
                en.append((op[0], r) + tuple(op[1:]))
            elif op[0] == 'coll':
                if r in released:
                    en.append(('coll', r, op[1]))
            elif op[0] == 'send':
                dest, tag, data, sy = op[1:]
                if not sy:
                    en.append(('send', r, dest, tag))
                elif dest in live and pend[dest][0] == 'recv':
                    want_s, want_t = pend[dest][1], pend[dest][2]
                    ahead = any(want_t in (ANY_TAG, t) for t, _ in queue.get((r, dest), ()))
                    if want_s in (ANY_SOURCE, r) and want_t in (ANY_TAG, tag) and not ahead:
                        en.append(('send', r, dest, tag))
            elif op[0] in ('recv', 'probe'):
                for s, i in match(r, op[1], op[2]):
                    en.append((op[0], r, s, queue[(s, r)][i][0], i))
        if not en:
            R.status = 'deadlock'
            break
        k = picker(en)
        op = en[k]
        R.steps += 1
        R.trace.append(op)
        r = op[1]
        p = pend.pop(r)
        wake = r
        if op[0] in ('start', 'point'):
            _send(socks[r], None)
        elif op[0] == 'coll':
            released.discard(r)
            _send(socks[r], pickle.dumps(collres, protocol=4))
            if not released:
                collres = None
        elif op[0] == 'send':
            dest, tag, data, sy = p[1:]
            if sy:
                # rendezvous: the receive completes together with the send
                q = pend.pop(dest)
                R.trace.append(('recv', dest, r, tag, 0))
                _send(socks[r], None)
                if wait_rank(r) == 'timeout':
                    R.status = 'timeout'
                    R.pending[r] = 'computing'
                    break
                _send(socks[dest], (r, tag, data))
                wake = dest
            else:
                queue.setdefault((r, dest), []).append((tag, data))
                _send(socks[r], None)
        elif op[0] == 'recv':
            tag, data = queue[(op[2], r)].pop(op[4])
            _send(socks[r], (op[2], tag, data))
        elif op[0] == 'probe':
            _send(socks[r], (op[2], op[3]))
        if wait_rank(wake) == 'timeout':
            R.status = 'timeout'
            R.pending[wake] = 'computing'
    if R.status != 'done':
        for r in live:
            R.pending[r] = tuple(x for x in pend[r] if not isinstance(x, bytes)) \
                if r in pend else 'computing'
    R.leftover = sum(len(q) for q in queue.values())
    for r, pid in pids.items():
        if r in live:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        socks[r].close()
        os.waitpid(pid, 0)
    return R


def random_picker(seed):
    rng = random.Random(seed)
    return lambda en: rng.randrange(len(en))


def guided_picker(order, seed=0):
    """order: list of ranks; the next listed rank that can move moves (on a
    wildcard receive by rank 0, the listed rank is preferred as the source)."""
    rng = random.Random(seed)
    todo = list(order)

    def pick(en):
        while todo:
            want = todo[0]
            for k, op in enumerate(en):
                if op[1] == want:
                    todo.pop(0)
                    return k
            # the wanted rank cannot move: let somebody else move, keep it first
            break
        return rng.randrange(len(en))
    return pick
