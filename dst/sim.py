"""The simulator: virtual time, entropy, sockets, actors and faults.

install() must run before anything of the library is imported.
"""
import sys
import os
import io
import json
import errno
import heapq
import hashlib
import random
import threading
import types

_real = {}
CUR = None          # the running Sim
EPOCH = 1577880000  # simulated start of time (2020-01-01 12:00 UTC)


class SimKill(BaseException):
    """unwinds an actor that crashed"""


class SimHang(BaseException):
    """the library waits for something that will never happen"""


class SimLimit(BaseException):
    """too many requests in one operation"""


class HarnessError(BaseException):
    pass


def h64(*parts):
    return int.from_bytes(hashlib.blake2b(json.dumps(parts, separators=(',', ':')).encode(), digest_size=8).digest(), 'big')


# ---------------------------------------------------------------- seams
def _now():
    s = CUR
    if s is None:
        return _real['time']()
    return s.local_time()


def _urandom(n):
    s = CUR
    if s is None:
        return _real['urandom'](n)
    return s.entropy(n)


class FakeRaw(io.RawIOBase):
    def __init__(self, conn):
        self.conn = conn

    def readable(self):
        return True

    def readinto(self, b):
        d = self.conn.recv(len(b))
        b[:len(d)] = d
        return len(d)


class FakeSocket:
    """Client side of one HTTP connection inside the simulator."""

    def __init__(self, sim, conn):
        self.sim, self.conn = sim, conn
        self.timeout = conn.timeout

    def sendall(self, data, flags=0):
        self.conn.send(bytes(data))

    def send(self, data, flags=0):
        self.conn.send(bytes(data))
        return len(data)

    def makefile(self, mode='rb', *a, **k):
        return io.BufferedReader(FakeRaw(self.conn), 65536)

    def recv(self, n, flags=0):
        return self.conn.recv(n)

    def recv_into(self, b, n=0, flags=0):
        d = self.conn.recv(n or len(b))
        b[:len(d)] = d
        return len(d)

    def settimeout(self, t):
        self.conn.timeout = t

    def gettimeout(self):
        return self.conn.timeout

    def setblocking(self, b):
        self.conn.timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return ('198.51.100.1', 80)

    def fileno(self):
        return -1

    def shutdown(self, how):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _create_connection(address, timeout=None, source_address=None, *a, **k):
    import socket
    s = CUR
    if s is None:
        raise OSError(errno.ENETUNREACH, 'no simulation is running')
    if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
        timeout = socket.getdefaulttimeout()
    return FakeSocket(s, s.connect(address[0], address[1], timeout))


def install():
    if _real:
        return
    import time
    import datetime
    import socket
    import ssl
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    os.environ['TZ'] = 'UTC'
    time.tzset()
    _real['time'], _real['monotonic'], _real['sleep'] = time.time, time.monotonic, time.sleep
    _real['localtime'], _real['gmtime'] = time.localtime, time.gmtime
    _real['urandom'] = os.urandom
    _real['strftime'], _real['ctime'] = time.strftime, time.ctime

    time.time = lambda: _now()
    time.time_ns = lambda: int(_now() * 10 ** 9)
    time.localtime = lambda *a: _real['localtime'](*(a if a and a[0] is not None else (_now(),)))
    time.gmtime = lambda *a: _real['gmtime'](*(a if a and a[0] is not None else (_now(),)))
    time.strftime = lambda f, *a: _real['strftime'](f, *(a or (time.localtime(),)))
    time.ctime = lambda *a: _real['ctime'](*(a if a and a[0] is not None else (_now(),)))

    def _sleep(t):
        if CUR is None:
            return _real['sleep'](t)
        CUR.wait(t)
    time.sleep = _sleep
    _mono = time.monotonic

    def _monotonic():
        return CUR.now if CUR is not None and CUR.in_op() else _mono()
    time.monotonic = _monotonic
    time.perf_counter = _monotonic

    rdt = datetime.datetime

    class SimDatetime(rdt):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(_now(), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(_now())

        @classmethod
        def today(cls):
            return cls.fromtimestamp(_now())
    SimDatetime.__name__ = 'datetime'
    rd = datetime.date

    class _M(type(rd)):
        def __instancecheck__(cls, x):
            return isinstance(x, rd)

    class SimDate(rd, metaclass=_M):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(_now())
    SimDate.__name__ = 'date'
    datetime.datetime = SimDatetime
    datetime.date = SimDate

    os.urandom = _urandom
    random._urandom = _urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: _urandom(n)
    socket.create_connection = _create_connection

    class _Sock(socket.socket):
        def connect(self, *a):
            raise HarnessError('unexpected raw socket')
    # TLS: pass-through (certificates are not part of any property)
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    real_wrap = ssl.SSLContext.wrap_socket

    def wrap(self, sock, *a, **k):
        if isinstance(sock, FakeSocket):
            return sock
        return real_wrap(self, sock, *a, **k)
    ssl.SSLContext.wrap_socket = wrap
    ssl._create_default_https_context = lambda *a, **k: ctx
    ssl.create_default_context = lambda *a, **k: ctx
    import http.client
    http.client.ssl._create_default_https_context = ssl._create_default_https_context
    # python's http.client imports it by name in some versions
    if hasattr(http.client, '_create_https_context'):
        http.client._create_https_context = lambda v: ctx


# ---------------------------------------------------------------- connections
CONNECT_FAULTS = ('dns', 'refuse', 'netunreach', 'connect_timeout', 'connect_reset')
REQUEST_FAULTS = ('reset_send', 'reset_before', 'eof_before', 'stall_before', 'slow')
LOST_ACK = ('reset_after', 'eof_after', 'stall_after')
STATUS_FAULTS = ('http500', 'http502', 'http503', 'http404', 'http403', 'http400', 'http429', 'http204', 'http201', 'http202')
BODY_FAULTS = ('truncate', 'midreset', 'midstall', 'short_eof', 'garbage', 'empty', 'emptyobj', 'null', 'list', 'html',
               'number', 'string', 'drop', 'nullify', 'retype', 'otherhash', 'othertype', 'dropelem', 'badutf8', 'http500_midreset',
               'forget', 'alter', 'blank', 'addelem')
OFFICIAL = {'standard': ['https://explorer.threefoldtoken.com'] + ['https://explorer%d.threefoldtoken.com' % i for i in (2, 3, 4)],
            'testnet': ['https://explorer.testnet.threefoldtoken.com', 'https://explorer2.testnet.threefoldtoken.com'],
            'devnet': ['http://localhost:23110']}
UNREACHABLE = CONNECT_FAULTS + ('reset_send', 'reset_before', 'eof_before', 'stall_before')


class Conn:
    def __init__(self, sim, node, host, port, timeout, ordinal):
        self.sim, self.node, self.host, self.timeout, self.ordinal = sim, node, host, timeout, ordinal
        self.buf = b''
        self.resp = None
        self.pos = 0
        self.fault = None
        self.end = None        # what happens at the end of the available data
        self.rec = None

    def send(self, data):
        if self.fault and self.fault['kind'] == 'reset_send':
            self.sim.note_fault(self, self.fault)
            self.sim.wait(0.01)
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        self.buf += data

    def _stall(self):
        t = self.timeout
        if t is None:
            self.sim.hang(self)
        self.sim.wait(t)
        raise TimeoutError('timed out')

    def recv(self, n):
        if self.resp is None:
            self.exchange()
        if self.pos < len(self.resp):
            d = self.resp[self.pos:self.pos + n]
            self.pos += len(d)
            return d
        if self.end == 'reset':
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if self.end == 'stall':
            self._stall()
        return b''

    def exchange(self):
        sim = self.sim
        head, _, body = self.buf.partition(b'\r\n\r\n')
        lines = head.decode('latin-1').split('\r\n')
        method, path = lines[0].split(' ')[:2]
        hdr = {}
        for l in lines[1:]:
            k, _, v = l.partition(':')
            hdr[k.strip().lower()] = v.strip()
        body = body[:int(hdr.get('content-length', 0))]
        sim.arrive(self, method, path, body)
        f = self.fault or {}
        k = f.get('kind')
        if k in ('reset_before', 'eof_before', 'stall_before'):
            sim.note_fault(self, f)
            self.resp, self.end = b'', {'reset_before': 'reset', 'eof_before': 'eof', 'stall_before': 'stall'}[k]
            sim.answered(self, None, None)
            return
        if k in STATUS_FAULTS:
            sim.note_fault(self, f)
            code = int(k[4:])
            msg = b'' if code == 204 else (f.get('body') or error_page(code, f.get('x', 0))).encode()
            self._response(code, msg)
            sim.answered(self, code, msg)
            return
        code, out = sim.process(self, method, path, body)
        if k in LOST_ACK:
            sim.note_fault(self, f)
            self.resp, self.end = b'', {'reset_after': 'reset', 'eof_after': 'eof', 'stall_after': 'stall'}[k]
            sim.answered(self, None, None)
            return
        if k in BODY_FAULTS:
            nout, ncode, end = damage(sim, self, f, code, out, path)
            if nout is not None:
                sim.note_fault(self, f)
                self._response(ncode, nout, cut=end[1] if end else None)
                self.end = end[0] if end else 'eof'
                sim.answered(self, ncode, nout, damaged=f)
                return
        self._response(code, out)
        self.end = 'eof'
        sim.answered(self, code, out)

    def _response(self, code, body, cut=None):
        h = 'HTTP/1.1 %d X\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % (
            code, len(body))
        if cut is not None:
            body = body[:cut]
        self.resp = h.encode() + body


def error_page(code, x):
    """what servers and proxies write in answers that are no content"""
    k = x % 5
    if code == 400:
        return ('{"message":"simulated failure"}\n', '400 Bad Request\n', '{"message":"simulated failure"}\n', '{}\n', '')[k]
    return ('{"message":"simulated failure"}\n', '%d page not found\n' % code, '<html><body>Not Found</body></html>\n',
            '{"message":"unrecognized hash used as input to /explorer/hash"}\n', '')[k]


def damage(sim, conn, f, code, out, path):
    """-> (body, code, (end, cut) or None); body None: fault does not apply"""
    k = f['kind']
    x = f.get('x', 0)
    if k in ('truncate', 'midreset', 'midstall', 'short_eof', 'http500_midreset'):
        if len(out) < 3:
            return None, None, None
        n = 1 + x % (len(out.rstrip()) - 1)     # never just the trailing newline
        if k == 'truncate':
            return out[:n], code, None
        if k == 'short_eof':
            return out, code, ('eof', n)
        if k == 'http500_midreset':
            return out, 500, ('reset', n)
        return out, code, ('reset' if k == 'midreset' else 'stall', n)
    const = {'garbage': b'\x00\x01 not json\n', 'empty': b'', 'emptyobj': b'{}\n', 'null': b'null\n', 'list': b'[]\n',
             'html': b'<html><body>502 Bad Gateway</body></html>\n', 'number': b'42\n', 'string': b'"ok"\n',
             'badutf8': b'{"hashtype":"\xff\xfe"}\n'}
    if k in const:
        return const[k], 200, None
    if code != 200:
        return None, None, None
    if k == 'forget':
        # the explorer denies knowing the hash
        return None, None, None
    j = json.loads(out)
    if k in ('drop', 'nullify', 'blank', 'retype', 'dropelem', 'addelem', 'alter'):
        paths = list(sim.required_paths(path, j, k))
        from . import answers
        inner = answers.raw_paths(path, j, k)
        if inner and (not paths or x // 7 % 2):
            paths = inner
        if not paths:
            return None, None, None
        p = paths[x % len(paths)]
        o = j
        for q in p[:-1]:
            o = o[q]
        if k == 'drop':
            del o[p[-1]]
        elif k == 'nullify':
            o[p[-1]] = None
        elif k == 'blank':
            o[p[-1]] = ''
        elif k == 'retype':
            old = o[p[-1]]
            o[p[-1]] = 'zz?' if not isinstance(old, str) else {'unexpected': 1}
        elif k == 'alter':
            old = o[p[-1]]
            i = (x >> 8) % len(old)
            o[p[-1]] = old[:i] + ('0' if old[i] != '0' else '1') + old[i + 1:]
        elif k == 'addelem':
            e = o[p[-1]]
            if p[-1] == 'transactions':
                o[p[-1]] = (e * 3)[:2 + max(len(e) - 1, 1) + (x >> 4) % 2]
            else:
                i = (x >> 4) % len(e)
                o[p[-1]] = e[:i] + [e[i]] + e[i:]
        else:
            o[p[-1]] = o[p[-1]][1:]
        conn.rec['where'] = '.'.join(str(q) for q in p)
        return (json.dumps(j, separators=(',', ':')) + '\n').encode(), code, None
    if k == 'othertype':
        if 'hashtype' not in j:
            return None, None, None
        alts = [t for t in ('blockid', 'transactionid', 'coinoutputid', 'blockstakeoutputid', 'unlockhash', 'mystery') if t != j['hashtype']]
        j['hashtype'] = alts[x % len(alts)]
        return (json.dumps(j, separators=(',', ':')) + '\n').encode(), code, None
    if k == 'otherhash':
        o = sim.other_answer(path, x, j)
        if o is None:
            return None, None, None
        return (json.dumps(o, separators=(',', ':')) + '\n').encode(), code, None
    return None, None, None


# ---------------------------------------------------------------- actors
class Actor:
    def __init__(self, idx, spec):
        self.idx, self.spec = idx, spec
        self.name = spec.get('name', 'a%d' % idx)
        self.skew = spec.get('skew', 0)
        self.ecount = 0
        self.thread = None
        self.go = threading.Event()
        self.rstate = None
        self.op = None           # current OpRec
        self.killed = False
        self.done = False
        self.mem = {}            # process memory: wallets etc., lost in a crash
        self.disk = {}           # survives


class OpRec:
    """Everything recorded about one operation."""

    def __init__(self, actor, i, spec):
        self.actor, self.i, self.spec = actor, i, spec
        self.kind = spec['op']
        self.attempts = []    # dict per connection attempt
        self.views = []       # (node, View) served
        self.posts = []       # dict(tx, node, code, errors, view, acked)
        self.faults = []      # faults that fired
        self.entropy = 0
        self.ecount = 0
        self.start = self.end = None
        self.events = 0


class Sim:
    def __init__(self, spec, world):
        self.spec, self.world = spec, world
        self.now = float(EPOCH + 10 * 365 * 86400)
        self.now = float(world.nodes[0].tip.time) + 30.0
        self.t0 = self.now
        self.actors = [Actor(i, a) for i, a in enumerate(spec['actors'])]
        self.cur = None
        self.heap = []
        self.seq = 0
        self.log = []
        self.violations = []     # dict(props, sig, msg, op)
        self.other = []             # violations of properties this run is not about
        self.known = set()          # recorded findings that showed again
        self.focus = spec.get('focus')
        self.fault_counts = {}
        self.event_counts = {}
        self.requests = 0
        self.hosts, self.ports = {}, {}
        if spec['setup'].get('official'):
            # the explorers the library knows of itself, several may be served by one node
            for i, url in enumerate(OFFICIAL[world.net]):
                host, _, port = url.partition('://')[2].partition(':')
                self.hosts[host] = i % len(world.nodes)
                self.ports[host] = int(port or 443)
        else:
            for i in range(len(world.nodes)):
                self.hosts['node%d.sim' % i] = i
        self.main = threading.Event()
        self.error = None
        self.ops = []            # all OpRecs in order of completion
        self.out = io.StringIO()
        self.fidx = {}
        for f in spec.get('faults', ()):
            self.fidx.setdefault((f['a'], f['op']), []).append(f)
        self.eidx = {}
        for e in spec.get('events', ()):
            self.eidx.setdefault((e['a'], e['op']), []).append(e)
        self.max_req = spec.get('max_requests', 1500)
        self.touched = set()     # states reached (coverage measure)

    # ------------------------------------------------------------ addresses
    def addresses(self, https=False):
        if self.ports:
            return list(OFFICIAL[self.world.net])
        return [('https://' if https else 'http://') + 'node%d.sim' % i for i in range(len(self.world.nodes))]

    # ------------------------------------------------------------ seams
    def in_op(self):
        return self.cur is not None and self.cur.op is not None

    def local_time(self):
        return self.now + (self.cur.skew if self.cur else 0)

    def entropy(self, n):
        a = self.cur
        if a is None:
            raise HarnessError('entropy outside an actor')
        i = None
        if a.op is not None:
            a.op.entropy += n
            i = a.op.i
        out = b''
        while len(out) < n:
            k = (i, a.op.ecount if a.op is not None else a.ecount)
            out += hashlib.blake2b(('%s|%s|%s|%d' % ((self.spec['seed'], a.spec.get('entropy', a.idx)) + k)).encode(),
                                   digest_size=64).digest()
            if a.op is not None:
                a.op.ecount += 1
            else:
                a.ecount += 1
        return out[:n]

    # ------------------------------------------------------------ scheduling
    def _push(self, t, a):
        self.seq += 1
        heapq.heappush(self.heap, (t, a.idx, self.seq, a))

    def wait(self, dt):
        """block the current actor for dt simulated seconds"""
        a = self.cur
        self._push(self.now + max(0.0, dt), a)
        self._switch(a)

    def _switch(self, me):
        t, _, _, nxt = heapq.heappop(self.heap)
        self.now = max(self.now, t)
        if nxt is me:
            if me.killed:
                raise SimKill()
            return
        me.rstate = random.getstate()
        self.cur = nxt
        me.go.clear()
        nxt.go.set()
        me.go.wait()
        if self.error is not None or self.cur is not me:
            raise SimKill()
        random.setstate(me.rstate)
        if me.killed:
            raise SimKill()

    def run(self, body, keep_threads=False):
        """body(sim, actor) runs the ops of one actor"""
        global CUR
        if CUR is not None:
            raise HarnessError('a simulation is already running')
        CUR = self
        so = sys.stdout
        sys.stdout = self.out
        st = random.getstate()
        try:
            if len(self.actors) == 1:
                self.cur = self.actors[0]
                body(self, self.actors[0])
            else:
                for a in self.actors:
                    self._push(self.now, a)
                    a.thread = threading.Thread(target=self._thread, args=(body, a), daemon=True)
                    a.thread.start()
                _, _, _, first = heapq.heappop(self.heap)
                self.cur = first
                first.go.set()
                self.main.wait()
                for a in self.actors:
                    a.thread.join(20)
                if self.error is not None:
                    raise self.error
        finally:
            sys.stdout = so
            random.setstate(st)
            self.cur = None
            CUR = None

    def _thread(self, body, a):
        a.go.wait()
        try:
            if self.error is None:
                body(self, a)
        except SimKill:
            if self.error is None:
                self.error = HarnessError('an actor was killed outside an operation')
        except BaseException as e:
            if self.error is None:
                self.error = e
        a.done = True
        if self.error is not None or not self.heap:
            for o in self.actors:
                if not o.done:
                    o.go.set()
            self.main.set()
            return
        t, _, _, nxt = heapq.heappop(self.heap)
        self.now = max(self.now, t)
        self.cur = nxt
        nxt.go.set()

    # ------------------------------------------------------------ events and faults
    def fire_events(self, rec, where):
        """world events bound to a point of an operation"""
        for e in self.eidx.get((rec.actor.idx, rec.i), ()):
            if e['at'] == where:
                self.do_event(e, rec)

    def do_event(self, e, rec=None):
        w = self.world
        k = e['ev']
        self.event_counts[k] = self.event_counts.get(k, 0) + 1
        if rec is not None:
            rec.events += 1
        n = e.get('node', 0) % len(w.nodes)
        if k == 'block':
            if w.nodes[n].up:
                dt = e.get('dt', 60)
                if 'edge' in e:
                    # right at, or just beside, an instant at which something becomes or ceases to be possible
                    heights, times = w.instants(n)
                    if e.get('high') and heights:
                        for _ in range(max(0, heights[e['edge'] % len(heights)] + e.get('delta', 0) - w.nodes[n].tip.height - 1)):
                            w.mine(n, 60, 0, e.get('deliver', True))
                    elif times:
                        dt = times[e['edge'] % len(times)] + e.get('delta', 0) - w.nodes[n].tip.time
                w.mine(n, dt, e.get('limit'), e.get('deliver', True), empty=e.get('empty', False))
        elif k == 'reorg':
            if w.nodes[n].up:
                w.reorg(n, e.get('depth', 1), e.get('dts', [60]), deliver=e.get('deliver', True))
        elif k == 'drop_mempool':
            for x in w.nodes:
                if e.get('all', True) or x.idx == n:
                    x.mempool = []
        elif k == 'partition':
            w.nodes[n].group = 1 - w.nodes[n].group
        elif k == 'heal':
            w.heal()
        elif k == 'crash':
            w.crash(n)
        elif k == 'restart':
            w.restart(n)
        elif k == 'skew':
            self.actors[e.get('who', 0) % len(self.actors)].skew = e['to']
        elif k == 'spend':
            self.foreign_spend(e, rec)
        elif k == 'call':
            self.hook_event(e, rec)
        else:
            raise HarnessError('unknown event %r' % (k,))
        self.log.append(['ev', k, round(self.now, 3), e.get('node', 0)])

    def foreign_spend(self, e, rec):
        """somebody else submits a transaction to one node"""
        from .setup import make
        w = self.world
        node = w.nodes[e.get('node', 0) % len(w.nodes)]
        if not node.up:
            return
        try:
            salt = [10 ** 7 + h64('spend', rec.actor.idx, rec.i, json.dumps(e, sort_keys=True)) % 10 ** 9]
            tx = make(w.setup_ring, e['tx'], w.out_labels, node.tip, w.minfee, salt, node.mempool)
        except KeyError:
            return
        if not w.submit(node, tx) and e['tx'].get('label'):
            from .setup import note
            note(w.out_labels, w.labels, e['tx'], tx)

    def hook_event(self, e, rec):
        pass

    def find_fault(self, rec, conn, phase_node):
        for f in self.fidx.get((rec.actor.idx, rec.i), ()):
            at = f['at']
            hit = False
            if at == 'post':
                hit = phase_node == 'post'
            elif phase_node == 'post':
                continue
            elif at == conn.ordinal:
                hit = True
            elif at == 'all':
                hit = True
            elif at == 'from':
                hit = conn.ordinal >= f['n']
            if hit and 'node' in f and f['node'] != conn.node:
                hit = False
            if hit and f.get('times') is not None and f.setdefault('_n', 0) >= f['times']:
                hit = False
            if hit:
                return f
        return None

    def note_fault(self, conn, f):
        f['_n'] = f.get('_n', 0) + 1
        k = f['kind']
        self.fault_counts[k] = self.fault_counts.get(k, 0) + 1
        if conn.rec is not None:
            conn.rec['fault'] = k
        op = self.cur.op
        if op is not None:
            op.faults.append((k, conn.ordinal))

    def hang(self, conn):
        conn.rec['hang'] = True
        self.cur.op.hung = True
        raise SimHang()

    # ------------------------------------------------------------ network
    def latency(self, rec, ordinal, tag):
        return 0.005 + (h64(self.spec['seed'], 'lat', rec.actor.idx, rec.i, ordinal, tag) % 1000) / 1000.0 * self.spec.get('lat', 0.2)

    def connect(self, host, port, timeout):
        rec = self.cur.op
        if rec is None:
            raise HarnessError('request outside an operation')
        node = self.hosts.get(host)
        ordinal = len(rec.attempts)
        if ordinal >= self.max_req:
            raise SimLimit()
        self.requests += 1
        conn = Conn(self, node, host, port, timeout, ordinal)
        conn.op = rec
        conn.rec = {'n': ordinal, 'node': node, 'host': host, 't': round(self.now, 3)}
        rec.attempts.append(conn.rec)
        self.fire_events(rec, ordinal)
        self.check_crash(rec, ('connect', ordinal))
        f = self.find_fault(rec, conn, None)
        self.wait(self.latency(rec, ordinal, 'c'))
        if node is None:
            import socket
            conn.rec['end'] = 'dns'
            raise socket.gaierror(-2, 'Name or service not known')
        if f is None and (not self.world.nodes[node].up or port != self.ports.get(host, port)):
            conn.rec['fault'] = 'down'
            conn.rec['end'] = 'refused'
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        conn.fault = f
        k = f['kind'] if f else None
        if k in CONNECT_FAULTS:
            import socket
            self.note_fault(conn, f)
            conn.rec['end'] = k
            if k == 'dns':
                raise socket.gaierror(-2, 'Name or service not known')
            if k == 'refuse':
                raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
            if k == 'netunreach':
                raise OSError(errno.ENETUNREACH, 'Network is unreachable')
            if k == 'connect_reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            self.wait(127.0 if timeout is None else min(timeout, 127.0))
            if timeout is None or timeout > 127:
                raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
            raise TimeoutError('timed out')
        if k == 'slow':
            self.note_fault(conn, f)
            self.wait(f.get('dt', 5.0))
        return conn

    def check_crash(self, rec, where):
        c = rec.spec.get('crash')
        if c is not None and c == where[1] and where[0] == rec.spec.get('crash_at', 'connect'):
            self.fault_counts['crash_client'] = self.fault_counts.get('crash_client', 0) + 1
            rec.crashed = True
            raise SimKill()

    def arrive(self, conn, method, path, body):
        conn.rec['m'], conn.rec['p'] = method, path
        self.wait(self.latency(conn.op, conn.ordinal, 'r'))
        if method == 'POST':
            if conn.fault is None:
                conn.fault = self.find_fault(conn.op, conn, 'post')
                if conn.fault and conn.fault['kind'] in CONNECT_FAULTS + ('reset_send',):
                    conn.fault = dict(conn.fault, kind='reset_before')
            self.fire_events(conn.op, 'post')

    def process(self, conn, method, path, body):
        rec = conn.op
        node = self.world.nodes[conn.node]
        if not node.up:
            # crashed while the request was under way
            return 503, b'{"message":"shutting down"}\n'
        v = node.view()
        rec.views.append((conn.node, v))
        conn.view = v
        na, nr = len(self.world.accepted), len(self.world.refused)
        code, out = self.world.handle(conn.node, method, path, body)
        conn.rec['code'] = code
        self.touched.add(h64(method, '/'.join(path.split('/')[:3]), code, rec.kind, v.height, len(v.mempool), conn.ordinal > 20))
        if method == 'POST':
            from .enc import Tx, BadTx
            p = {'node': conn.node, 'code': code, 'view': v, 'body': body, 'conn': conn.ordinal, 'acked': False, 'errors': None,
                 'nviews': len(rec.views)}
            try:
                p['json'] = json.loads(body)
                p['tx'] = Tx(p['json'])
                p['errors'] = v.validate(p['tx'], self.world.minfee)
            except (BadTx, ValueError) as e:
                p['tx'] = None
                p['errors'] = [('static', 'malformed', str(e))]
            p['accepted'] = len(self.world.accepted) > na
            p['processed'] = True
            rec.posts.append(p)
            conn.post = p
            self.fire_events(rec, 'posted')
        return code, out

    def answered(self, conn, code, body, damaged=None):
        rec = conn.op
        conn.rec['end'] = code if code is not None else 'lost'
        if code == 204 or code == 400 and (b'unrecognized hash' in body or b'not found' in body):
            conn.rec['nothing'] = True
        if damaged:
            if not (damaged['kind'] == 'truncate' and code != 200):     # nobody reads the body of an error
                conn.rec['damaged'] = damaged['kind']
        p = getattr(conn, 'post', None)
        if p is not None and damaged is None and code == 200:
            p['acked'] = True
        self.log.append(['req', rec.actor.idx, rec.i, conn.ordinal, conn.node, conn.rec.get('m'), conn.rec.get('p'), code,
                         round(self.now, 3), conn.rec.get('fault') or '',
                         hashlib.blake2b(body or b'', digest_size=6).hexdigest()])
        if conn.rec.get('m') == 'POST' and p is None:
            rec.posts.append({'node': conn.node, 'code': code, 'view': None, 'body': conn.buf.partition(b'\r\n\r\n')[2],
                              'conn': conn.ordinal, 'acked': False, 'errors': None, 'tx': None, 'processed': False,
                              'accepted': False, 'json': None, 'nviews': len(rec.views)})
        self.wait(self.latency(rec, conn.ordinal, 'a'))
        if conn.rec.get('m') == 'POST':
            self.fire_events(rec, 'answered')
            if rec.spec.get('crash') == 'post':
                rec.crashed = True
                self.fault_counts['crash_client'] = self.fault_counts.get('crash_client', 0) + 1
                raise SimKill()

    # overridable by profiles: parts of an answer the library needs
    def required_paths(self, path, j, kind):
        from . import answers
        return answers.required_paths(path, j, kind)

    def other_answer(self, path, x, j):
        from . import answers
        return answers.other_answer(self, path, x, j)

    # ------------------------------------------------------------ verdicts
    def violate(self, props, sig, msg, rec=None):
        if isinstance(props, str):
            props = [props]
        v = {'props': sorted(set(props)), 'sig': sig, 'msg': msg[:2000],
             'op': [rec.actor.idx, rec.i, rec.kind] if rec is not None else None}
        if any(sig == k and p in props for p, k in self.spec.get('known', ())):
            self.known.add(sig)
            return
        (self.other if self.focus and self.focus not in props else self.violations).append(v)
        self.log.append(['violation', sorted(props), sig])

    def digest(self):
        return hashlib.sha256(json.dumps(self.log, sort_keys=True, default=str).encode()).hexdigest()
