"""The server binary (AddressSanitizer build of the current tree) in a scratch directory, and a strict HTTP client for it."""
import mmap, os, re, resource, select, shutil, signal, socket, ssl, struct, subprocess, time
from . import build as B
from .engine import Fail
from .worker import Crash, drop, summary

ANSWER = 12.0      # seconds after which a silent server counts as stalled
RES = os.path.join(B.SRC, 'viriatum', 'resources', 'html', 'base', 'templates')

_next = [None]
def free_port(tag='s0', fam=socket.AF_INET):
    """a port below the ephemeral range, from the part that belongs to the shard"""
    part = int(tag[1:]) if tag[1:].isdigit() else 8
    base = 10000 + 2200 * min(part, 9)
    if _next[0] is None: _next[0] = os.getpid() * 37 % 2200
    for _ in range(2200):
        _next[0] = (_next[0] + 1) % 2200
        s = socket.socket(fam)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try: s.bind(('::1' if fam == socket.AF_INET6 else '127.0.0.1', base + _next[0])); return base + _next[0]
        except OSError: pass
        finally: s.close()
    raise RuntimeError('no free port')

def available(env, variant):
    """is the variant built? the ones beside the default need not be buildable on every tree"""
    return os.path.exists(os.path.join(env.bin, 'server.' + variant))
def program(env, variant=None):
    """the copy of the server, of the given configuration of the build, that may run without privileges"""
    name = '.' + variant if variant else ''
    exe = os.path.join(env.tmp, 'viriatum' + name)
    if not os.path.exists(exe) and (not variant or available(env, variant)): shutil.copy(os.path.join(env.bin, 'server' + name), exe); os.chmod(exe, 0o755)
    return exe

class Server(object):
    """one server process; its root directory holds conf/, modules/ and www/"""
    def __init__(self, env, ini='', args=(), name='srv', keep=1500, limit=None, leaks=False, stat=False, variant=None):
        variant = variant or env.variant
        if variant and not available(env, variant): variant = None
        self.limit, self.leaks, self.stat = limit, leaks, None
        self.env, self.ini, self.args, self.keep = env, ini, list(args) + env.args, keep
        self.root = os.path.join(env.tmp, name)
        self.www = os.path.join(self.root, 'www')
        for d in ('conf', 'modules', 'www/templates'):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for f in ('listing.html.tpl', 'error.html.tpl'):
            shutil.copy(os.path.join(RES, f), os.path.join(self.www, 'templates', f))
        self.exe = program(env, variant)
        if stat:
            path = os.path.join(self.root, 'stat')
            with open(path, 'wb') as f: f.write(bytes(4096))
            os.chmod(path, 0o666); self.stat = path
        self.p = None; self.port = None; self.conns = 0
        env.closers.append(self.stop)
    def configure(self, ini):
        if ini != self.ini: self.stop(); self.ini = ini
    def start(self, port=None):
        for attempt in range(1 if port else 6):
            self.port = port or free_port(self.env.tag)
            with open(os.path.join(self.root, 'conf', 'viriatum.ini'), 'wb') as f:
                t = self.ini if isinstance(self.ini, bytes) else self.ini.encode('latin-1')
                f.write(t)
            if isinstance(t, bytes): t = t.decode('latin-1')
            e = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:' % self.leaks + 'allocator_may_return_null=1:max_allocation_size_mb=2000:hard_rss_limit_mb=2500:quarantine_size_mb=64:handle_abort=1:detect_odr_violation=0', LC_ALL='C', TZ='UTC')
            if self.stat: e['VERIF_STAT'] = self.stat
            self.err = open(os.path.join(self.root, 'server.err'), 'wb')
            def prepare():
                if self.limit: resource.setrlimit(resource.RLIMIT_NOFILE, (self.limit, self.limit))
                drop()
            self.p = subprocess.Popen([self.exe, '--host=127.0.0.1', '--port=%d' % self.port] + self.args, cwd=self.root, env=e, stdin=subprocess.DEVNULL,
                                      stdout=subprocess.DEVNULL, stderr=self.err, start_new_session=True, preexec_fn=prepare)
            end = time.monotonic() + 15
            while time.monotonic() < end:
                if self.p.poll() is not None: break
                try:
                    s = socket.create_connection(('127.0.0.1', self.port), 1); s.close()
                    # the second listener comes after the first one
                    if 'ip6=1\n' in t: s = socket.create_connection(('::1', self.port), 1); s.close()
                    # the listener has to be our process and not somebody who took the port
                    if self.p.poll() is None: self.conns = 0; return self
                except OSError: time.sleep(0.004)
            text = self.report(); dead = self.p.poll()
            self.stop()
            if dead is not None and ('ERROR: ' in text or dead < 0): raise Crash('the server dies when it starts (status %s): %s' % (dead, summary(text)))
        raise Crash('the server does not start: %s' % text[-300:])
    def report(self):
        try:
            with open(os.path.join(self.root, 'server.err'), 'rb') as f: return f.read().decode('utf-8', 'replace')
        except OSError: return ''
    def stop(self):
        if self.p:
            # with its workers; when the process has ended they may still be there
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except OSError: pass
            self.p.wait(); self.err.close(); self.p = None
    def finish(self, sig=signal.SIGTERM, second=None, wait=ANSWER + 8, keep=False):
        """asks the process to stop; -> seconds it took. Raises when it does not end in order"""
        p, t = self.p, time.monotonic()
        self.died(); p.send_signal(sig)
        if second is not None and second != sig: p.send_signal(second)
        try: rc = p.wait(wait)
        except subprocess.TimeoutExpired:
            self.stop(); raise Fail('no answer within %d s: the server does not end after signal %d' % (wait, sig))
        t = time.monotonic() - t; text = self.report()
        if keep: self.err.close(); self.p = None     # its workers are left to the caller
        else: self.stop()
        if rc or 'ERROR: ' in text: raise Crash('the server ends with status %s after signal %d: %s' % (rc, sig, summary(text)))
        return t
    def usage(self):
        """-> allocated bytes, open descriptors"""
        end = time.monotonic() + 10
        with open(self.stat, 'r+b') as f, mmap.mmap(f.fileno(), 4096) as m:
            n = struct.unpack_from('QQQ', m)[0]
            while True:
                v = struct.unpack_from('QQQ', m)
                if v[0] > n + 1: return v[1], v[2]
                if time.monotonic() > end: self.died(); raise RuntimeError('the server publishes no usage')
                time.sleep(0.0005)
    def ensure(self):
        if self.p is None: self.start()
        return self
    def fresh(self):
        """at the start of a case: a process that served many connections is replaced"""
        if self.conns > self.keep: self.stop()
        return self
    def died(self, wait=0.0):
        """raises when the process is no longer there"""
        if self.p is None: return
        end = time.monotonic() + wait
        while True:
            rc = self.p.poll()
            if rc is not None:
                text = self.report(); self.stop()
                raise Crash('the server process died (status %s): %s' % (rc, summary(text)))
            if time.monotonic() >= end:
                # one of the workers may have died
                if '--workers' in ' '.join(self.args) and 'ERROR: ' in self.report(): text = self.report(); self.stop(); raise Crash('a worker process died: %s' % summary(text))
                return
            time.sleep(0.01)
    def gone(self):
        """after a connection was closed: raises when the reason is the end of the process. The listening socket has
        a lower number than every connection, so it is closed first when the process ends"""
        if self.p is None: return
        try:
            s = socket.create_connection(('127.0.0.1', self.port), 2); s.close()
            self.died()
        except OSError: self.died(3.0)
    def connect(self, rcvbuf=None, port=None, fam=socket.AF_INET):
        self.ensure(); self.conns += 1
        s = socket.socket(fam)
        s.settimeout(ANSWER)
        if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try: s.connect(('::1' if fam == socket.AF_INET6 else '127.0.0.1', port or self.port))
        except OSError as e:
            self.died(3.0); raise Fail('no answer within %d s: cannot connect (%s)' % (ANSWER, e))
        return Conn(self, s)
    def get(self, target, headers=(), method=b'GET', keep=False, version=b'1.1', body=None):
        """one request on its own connection"""
        c = self.connect()
        try:
            c.send(request(target, headers, method, keep, version, body))
            r = c.response()
            if not keep: c.expect_close()
            return r
        finally: c.close()

def request(target, headers=(), method=b'GET', keep=False, version=b'1.1', body=None):
    h = b''.join(b'%s: %s\r\n' % (n, v) for n, v in headers)
    if body is not None: h += b'Content-Length: %d\r\n' % len(body)
    return b'%s %s HTTP/%s\r\nHost: localhost\r\nConnection: %s\r\n%s\r\n%s' % (method, target, version, b'keep-alive' if keep else b'close', h, body or b'')

class Response(object):
    def header(self, name):
        v = [b for a, b in self.headers if a.lower() == name.lower()]
        if len(v) > 1: raise Fail('the response has %d %s headers' % (len(v), name.decode()))
        return v[0] if v else None
    def same(self):
        """what identifies the response, without the connection management"""
        return (self.status, self.reason, tuple((n.lower(), v) for n, v in self.headers if n.lower() not in (b'connection', b'date')), self.body)
    def __repr__(self): return 'Response(%s, %s, %d bytes %r)' % (self.status, self.headers, len(self.body), self.body[:80])

class Closed(Fail): pass

class Conn(object):
    def __init__(self, server, sock): self.server, self.s, self.buf, self.eof = server, sock, b'', False
    def close(self):
        try: self.s.close()
        except OSError: pass
    def reset(self):
        try: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        except OSError: pass
        self.close()
    def send(self, data, strict=True):
        """strict: the server has no reason to close before it read everything"""
        try:
            if len(data) <= 16384 or getattr(self.s, 'tls', False): self.s.sendall(data); return True
            end = time.monotonic() + ANSWER
            view = memoryview(data)
            while view:
                # a client that does not read while it writes could block the server and itself
                r, w, _ = select.select([] if self.eof else [self.s], [self.s], [], 1)
                if r:
                    d = self.s.recv(1 << 18); self.buf += d; self.eof = not d; end = time.monotonic() + ANSWER
                if w: n = self.s.send(view[:65536], socket.MSG_DONTWAIT); view = view[n:]; end = time.monotonic() + ANSWER
                if time.monotonic() > end: raise socket.timeout()
            return True
        except BlockingIOError: return self.send(bytes(view), strict)
        except socket.timeout: self.server.died(); raise Fail('no answer within %d s: the server stops reading' % ANSWER)
        except OSError as e:
            self.server.gone()
            if strict and not self.buf: raise Fail('the connection was closed while the request was sent (%s)' % e)
            return False
    def fill(self):
        try: d = self.s.recv(1 << 18)
        except socket.timeout: self.server.died(); raise Fail('no answer within %d s (received %d bytes: %r)' % (ANSWER, len(self.buf), self.buf[-80:]))
        except ssl.SSLError as e: self.server.gone(); raise Fail('TLS failure while reading the response: %s' % e)
        except OSError: d = b''
        if not d: self.eof = True
        self.buf += d
        return d
    def need(self, n, what):
        while len(self.buf) < n:
            if not self.fill():
                self.server.gone(); raise Closed('the connection was closed within the %s (%d of %d bytes)' % (what, len(self.buf), n))
    def until(self, mark, what, limit=1 << 16):
        while mark not in self.buf:
            if len(self.buf) > limit: raise Fail('endless %s' % what)
            if not self.fill():
                self.server.gone(); raise Closed('the connection was closed %s' % ('within the ' + what + ': %r' % self.buf[:100] if self.buf else 'without a response'))
        i = self.buf.index(mark) + len(mark)
        out, self.buf = self.buf[:i], self.buf[i:]
        return out
    def response(self, bodyless=False, eof=False):
        """bodyless: the answer of a HEAD request; eof: a body may last until the connection ends"""
        r = Response()
        head = self.until(b'\r\n\r\n', 'response headers')
        ls = head[:-4].split(b'\r\n')
        m = re.match(rb'^HTTP/(1\.[01]) (\d\d\d) ?([^\r\n]*)$', ls[0])
        if not m: raise Fail('malformed status line %r' % ls[0][:100])
        r.version, r.status, r.reason = m.group(1), int(m.group(2)), m.group(3)
        r.headers = []
        for l in ls[1:]:
            m = re.match(rb"^([!#$%&'*+\-.^_`|~0-9A-Za-z]+):[ \t]*(.*?)[ \t]*$", l, re.S)
            if not m or b'\n' in l or b'\r' in l: raise Fail('malformed response header %r' % l[:100])
            r.headers.append((m.group(1), m.group(2)))
        r.head = head
        te = r.header(b'Transfer-Encoding'); cl = r.header(b'Content-Length')
        if bodyless or r.status in (204, 304) or 100 <= r.status < 200: r.body = b''
        elif te is not None and te.lower() == b'chunked':
            out = []
            while True:
                l = self.until(b'\r\n', 'chunk size')[:-2].split(b';')[0].strip()
                if not re.match(rb'^[0-9a-fA-F]+$', l): raise Fail('malformed chunk size %r' % l[:40])
                n = int(l, 16)
                if n == 0: break
                self.need(n + 2, 'chunk')
                if self.buf[n:n + 2] != b'\r\n': raise Fail('chunk of %d bytes without terminator' % n)
                out.append(self.buf[:n]); self.buf = self.buf[n + 2:]
            r.trailers = []
            while True:
                l = self.until(b'\r\n', 'trailers')[:-2]
                if not l: break
                r.trailers.append(l)
            r.body = b''.join(out)
        elif cl is not None:
            if not re.match(rb'^\d+$', cl): raise Fail('malformed Content-Length %r' % cl)
            n = int(cl)
            self.need(n, 'response body')
            r.body, self.buf = self.buf[:n], self.buf[n:]
        elif eof:
            while self.fill(): pass
            r.body, self.buf = self.buf, b''
        else: raise Fail('the response has no framing: %r' % head[:300])
        return r
    def expect_close(self):
        """nothing more arrives and the server closes"""
        if self.buf: raise Fail('bytes after the last response: %r' % self.buf[:120])
        if self.eof: return
        d = self.fill()
        if d: raise Fail('bytes after the last response: %r' % d[:120])
    def closed_without_response(self):
        while self.fill():
            if len(self.buf) > 1 << 20: break
        return not self.buf
