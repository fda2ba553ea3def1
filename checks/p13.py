"""P13: obtaining the configured data sets."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
import crash
import fakempi
import tc
import gzip
import io
import random
import shutil
import socket
import struct
import threading
import time
import zipfile

GOOD = ['ok', 'slow', 'odd']
BAD = ['refused', 'status', 'cut', 'reset', 'badarchive', 'garbage', 'shortarchive']
SIZES = [1, 100, 8191, 8192, 8193, 20000, 70001]


class Server:
    """Answers each request by plan; counts the requests per data set."""

    def __init__(self, rng):
        self.rng = rng
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(20)
        self.port = self.sock.getsockname()[1]
        self.closed = socket.socket()          # bound, never listening: refuses
        self.closed.bind(('127.0.0.1', 0))
        self.noport = self.closed.getsockname()[1]
        self.plan, self.body, self.asked = {}, {}, {}
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            try:
                self.answer(s)
            except OSError:
                pass
            s.close()

    def answer(self, s):
        s.settimeout(20)
        req = b''
        while b'\r\n\r\n' not in req:
            x = s.recv(4096)
            if not x:
                return
            req += x
        k = int(req.split()[1].split(b'/')[1])
        self.asked[k] = self.asked.get(k, 0) + 1
        plan, body = self.plan[k], self.body[k]
        r = self.rng
        if plan == 'garbage':
            s.sendall(b'\x00\x01 not http at all\r\n\r\n')
            return
        if plan == 'status':
            st = r.choice(['404 Not Found', '500 Server Error', '403 Forbidden'])
            page = b'<html>sorry</html>'
            s.sendall(('HTTP/1.1 %s\r\nContent-Length: %d\r\n\r\n' % (st, len(page))).encode() + page)
            return
        if plan == 'badarchive':
            b = bytearray(body)
            for _ in range(3):
                b[r.randint(len(b) // 3, len(b) * 2 // 3)] ^= r.randint(1, 255)
            body = bytes(b)
        if plan == 'shortarchive':
            body = body[:r.randint(1, len(body) - 1)]
        head = 'HTTP/1.1 200 OK\r\nConnection: close\r\n'
        if plan == 'nolength':
            s.sendall((head + '\r\n').encode() + body)
            return
        if plan == 'odd':
            # chunked transfer
            s.sendall((head + 'Transfer-Encoding: chunked\r\n\r\n').encode())
            i = 0
            while i < len(body):
                n = r.choice([1, 1000, 8192, 9000])
                p = body[i:i + n]
                s.sendall(b'%x\r\n' % len(p) + p + b'\r\n')
                i += n
            s.sendall(b'0\r\n\r\n')
            return
        if plan in ('cut', 'reset') and r.random() < .25:
            # a chunked transfer that ends in the middle of a chunk
            n = r.randint(0, len(body) - 1)
            s.sendall((head + 'Transfer-Encoding: chunked\r\n\r\n').encode() + b'%x\r\n' % len(body) + body[:n])
            return
        s.sendall((head + r.choice(['Content-Length', 'content-length']) + ': %d\r\n\r\n' % len(body)).encode())
        if plan in ('cut', 'reset', 'stall'):
            n = r.choice([0, len(body) // 2, len(body) - 1, min(8192, len(body) - 1)])
            s.sendall(body[:n])
            if plan == 'stall':
                try:
                    s.recv(1)
                except OSError:
                    pass
                return
            if plan == 'reset':
                time.sleep(.02)
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            return
        if plan == 'slow':
            i = 0
            while i < len(body):
                n = max(1, len(body) // r.randint(2, 5))
                s.sendall(body[i:i + n])
                i += n
                time.sleep(.01)
        else:
            s.sendall(body)

    def close(self):
        self.sock.close()
        self.closed.close()


def pack(kind, data, name, rng):
    if kind == 'gz':
        b = io.BytesIO()
        with gzip.GzipFile(filename=rng.choice(['', 'inner.csv']), mode='wb', fileobj=b) as g:
            g.write(data)
        return b.getvalue()
    if kind == 'zip':
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED) as z:
            if name == 'several':
                z.writestr('readme.txt', 'about this data set')
                z.writestr('data.csv', data)
            else:
                z.writestr(rng.choice(['data.csv', 'inner.txt']), data)
        return b.getvalue()
    return data


def step(ini):
    """The download step in a process of its own: True if it reports failure."""
    import tcrm
    from Utilities.parallel import attemptParallel
    attemptParallel()
    try:
        tcrm.doDataDownload(ini)
    except SystemExit as e:
        return e.code not in (None, 0)
    except Exception:
        return True
    return False


def run():
    c = vf.Check('P13')
    c.source()
    tc.quiet()
    os.environ['no_proxy'] = '*'
    c.model_check('Downloader', min_states=300)
    c.refute('Downloader', 'DownloaderInPlace', 'WholeOrNothing')
    c.refute('Downloader', 'DownloaderUnchecked', 'WholeOrNothing')
    c.model_check('DownloadMC', min_states=10)
    fakempi.no_mpi()
    import tcrm
    from Utilities.parallel import attemptParallel
    N = 84 if c.quick else 800
    jobs = []
    for k in range(N):
        jobs.append((k, c.rng.getrandbits(32)))

    def play(job):
        k, seed = job
        rng = random.Random(seed)
        d = c.dir('case')
        n = rng.choice([1, 2, 3, 4, 6])
        sv = Server(rng)
        sets = []
        for i in range(1, n + 1):
            data = bytes(rng.getrandbits(8) for _ in range(rng.choice(SIZES)))
            if len(data) > 1000 and rng.random() < .5:      # a table, which packs well
                data = b'season,lat,lon\n' + b''.join(b'%d,%d,%d\n' % (1950 + q % 60, rng.randint(-30, 0), rng.randint(90, 160))
                                                     for q in range(len(data) // 12))
            kind = rng.choice(['plain', 'gz', 'zip'])
            name = rng.choice(['named', 'unnamed']) if kind != 'zip' else 'named'
            path = os.path.join(d, rng.choice(['input', 'MSLP']))
            os.makedirs(path, exist_ok=True)
            several = kind == 'zip' and rng.random() < .5
            url = 'set%d.%s' % (i, {'plain': 'csv', 'gz': 'csv.gz', 'zip': 'zip'}[kind])
            fn = ('data.csv' if several else 'local%d.csv' % i) if name == 'named' else 'set%d.csv' % i
            if several:
                path = os.path.join(d, 'zip%d' % i)
                os.makedirs(path, exist_ok=True)
            sv.body[i] = pack(kind, data, 'several' if several else '', rng)
            sets.append((kind, name, path, url, fn, data))

        def states():
            out = []
            for kind, name, path, url, fn, data in sets:
                p = os.path.join(path, fn)
                if not os.path.exists(p):
                    out.append('none')
                else:
                    with open(p, 'rb') as fh:
                        out.append('full' if fh.read() == data else 'partial')
            return out

        def ini(plan, at=None):
            cf = {'Input': {'Datasets': ','.join('S%d' % i for i in range(1, n + 1))},
                  'Output': {'Path': d}, 'Logging': {'ProgressBar': rng.choice(['True', 'False'])}}
            for i, (kind, name, path, url, fn, data) in enumerate(sets, 1):
                port = sv.noport if plan[i - 1] == 'refused' else sv.port
                cf['S%d' % i] = {'URL': 'http://127.0.0.1:%d/%d/%s' % (port, i, url),
                                 'path': path if at is None else at}
                if name == 'named':
                    cf['S%d' % i]['filename'] = fn
            return tc.write_ini(os.path.join(d, 'run.ini'), cf)
        ev = []
        for r in range(rng.randint(2, 5)):
            plan = []
            for i in range(1, n + 1):
                p = rng.choice(GOOD + GOOD + ['nolength'] + BAD)
                if sets[i - 1][0] == 'plain' and p in ('badarchive', 'shortarchive'):
                    p = 'cut'
                if p in ('cut', 'reset') and len(sv.body[i]) < 60:
                    p = 'status'
                if p in ('badarchive', 'shortarchive') and len(sets[i - 1][5]) < 1000:
                    p = 'garbage'       # too small to hit the packed data itself
                plan.append(p)
            if k % 28 == 0 and r == 0:
                plan[rng.randrange(n)] = 'stall'
            sv.plan = dict(enumerate(plan, 1))
            sv.asked.clear()
            if rng.random() < .4:
                # cut the run at any line it executes
                f = ini(plan)
                at, how = rng.randint(1, 60 * n), rng.choice(['kill', 'int', 'io', 'rename'])

                def part():
                    if how != 'rename':
                        return crash.interrupt(c.src, lambda: step(f), at, how)

                    def end(*a, **k):       # the machine stops before a file gets its name
                        os._exit(9)
                    os.replace = os.rename = shutil.move = end
                    return step(f)
                res = c.call(part, timeout=60)
                kindev = 'run' if res[0] == 'ok' else 'crash'
                if res[0] == 'ok' and how == 'io':
                    kindev = 'crash'    # the error was handled; only the weaker clauses apply
                e = {'t': kindev, 'disk': states(), 'asked': [sv.asked.get(i, 0) for i in range(1, n + 1)]}
                if kindev == 'run':
                    e.update(plan=plan, failed=res[1])
                else:
                    e.update(how=how, at=at, ended=res[0])
            else:
                f = ini(plan)
                twice = rng.random() < .2

                present = all(x == 'full' for x in states()) and rng.random() < .5

                def go():
                    if present:
                        import Utilities.datasets as ds
                        ds.loadDatasets(f)
                        ds.checkAndDownload()
                        return False
                    if twice:
                        import Utilities.datasets as ds
                        ds.loadDatasets(f)
                    return step(f)
                res = c.call(go, timeout=90)
                if res[0] != 'ok':
                    ev.append({'t': 'ended ' + res[0], 'what': str(res[1])[:300]})
                    break
                e = {'t': 'run', 'plan': plan, 'disk': states(), 'failed': res[1],
                     'asked': [sv.asked.get(i, 0) for i in range(1, n + 1)]}
            ev.append(e)
            if rng.random() < .15:
                i = rng.randint(1, n)
                p = os.path.join(sets[i - 1][2], sets[i - 1][4])
                if os.path.exists(p):
                    os.remove(p)
                    ev.append({'t': 'remove', 'i': i})
        sv.close()
        shutil.rmtree(d)
        return {'cfg': {'n': n}, 'ev': ev, 'about': [{'kind': s[0], 'size': len(s[5]), 'file': s[4]} for s in sets]}
    traces = c.pmap(play, jobs)
    stats = {}
    for t in traces:
        for e in t['ev']:
            stats[e['t']] = stats.get(e['t'], 0) + 1
            for p in e.get('plan', []):
                stats['plan_' + p] = stats.get('plan_' + p, 0) + 1
    n = len(traces)
    ctrl = []
    for t in traces:
        ks = [i for i, e in enumerate(t['ev']) if e['t'] == 'run']
        if ks and len(ctrl) < 40:
            i = c.rng.choice(ks)
            for field in ('failed', 'disk', 'asked'):
                ev = [dict(e) for e in t['ev']]
                if field == 'failed':
                    ev[i]['failed'] = not ev[i]['failed']
                elif field == 'disk':
                    ev[i]['disk'] = ['partial'] + ev[i]['disk'][1:]
                else:
                    ev[i]['asked'] = [a + 2 for a in ev[i]['asked']]
                ctrl.append({'cfg': t['cfg'], 'ev': ev})
    allt = traces + ctrl
    idx = range(n, len(allt))
    res = c.trace_check('Download', allt, expect_reject=idx)
    c.judge('Download', allt, res, idx)
    c.sample(traces[0])
    c.finish(histories=n, observed=stats)


vf.main(run)
