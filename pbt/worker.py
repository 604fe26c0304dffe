"""Client of the in-process worker: the library compiled with sanitizers behind a pipe."""
import os, select, signal, struct, subprocess, tempfile
from .engine import Fail

class Crash(Fail): pass

def u8(v): return struct.pack('<B', v)
def u32(v): return struct.pack('<I', v)
def u64(v): return struct.pack('<Q', v)
def lb(b): return struct.pack('<I', len(b)) + b

def drop():
    """the code under test never runs as root"""
    os.umask(0o022)
    if os.geteuid() == 0:
        try: os.setgroups([]); os.setgid(65534); os.setuid(65534)
        except OSError: pass

class Worker(object):
    TIMEOUT = 20
    def __init__(self, exe, cwd):
        self.exe, self.cwd, self.p = exe, cwd, None
        self.err = os.path.join(cwd, 'worker-%d.err' % os.getpid())
        self.count = 0
    def start(self):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:hard_rss_limit_mb=2500:quarantine_size_mb=64:handle_abort=1:symbolize=1', LC_ALL='C', TZ='UTC')
        self.ef = open(self.err, 'wb')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.ef, cwd=self.cwd, env=env, bufsize=0, start_new_session=True, preexec_fn=drop)
        self.count = 0
    def stop(self):
        if self.p:
            try: self.p.kill()
            except OSError: pass
            self.p.wait(); self.p.stdin.close(); self.p.stdout.close(); self.ef.close(); self.p = None
    def _dead(self, why):
        if why == 'hang':
            self.stop(); raise Crash('the operation does not terminate (%d s)' % self.TIMEOUT)
        rc = self.p.wait(); self.stop()
        with open(self.err, 'rb') as f: text = f.read().decode('utf-8', 'replace')
        if rc == 4: raise RuntimeError('worker: ' + text)
        raise Crash('the process died (status %s): %s' % (rc, summary(text)))
    def _read(self, n):
        out = b''
        fd = self.p.stdout.fileno()
        while len(out) < n:
            r, _, _ = select.select([fd], [], [], self.TIMEOUT)
            if not r: self._dead('hang')
            b = os.read(fd, min(1 << 20, n - len(out)))
            if not b: self._dead('eof')
            out += b
        return out
    def call(self, name, *args):
        if self.p is None or self.count > 3000: self.stop(); self.start()
        self.count += 1
        body = lb(name.encode())
        for a in args:
            if isinstance(a, int): a = b'%d' % a
            elif isinstance(a, str): a = a.encode('latin-1')
            body += lb(bytes(a))
        msg = struct.pack('<I', len(body)) + body
        try:
            view = memoryview(msg)
            if len(msg) < 60000: 
                while view: view = view[os.write(self.p.stdin.fileno(), view):]
            else:
                fd = self.p.stdin.fileno()
                while view:
                    _, w, _ = select.select([], [fd], [], self.TIMEOUT)
                    if not w: self._dead('hang')
                    view = view[os.write(fd, view[:60000]):]
        except (BrokenPipeError, OSError): self._dead('eof')
        total = struct.unpack('<I', self._read(4))[0]
        raw = self._read(total) if total else b''
        items, off = [], 0
        while off < total:
            l = struct.unpack_from('<I', raw, off)[0]
            items.append(raw[off + 4:off + 4 + l]); off += 4 + l
        return items

def summary(text):
    """the lines of a sanitizer report that identify it"""
    keep = []
    for line in text.split('\n'):
        l = line.strip()
        if 'ERROR: ' in l or 'runtime error' in l or 'Assertion' in l or 'WARNING: ThreadSanitizer' in l: keep.append(l)
        elif l.startswith('#') and ('/src/' in l or 'viriatum' in l) and len(keep) < 6: keep.append(l)
    return ' | '.join(keep)[:1200] or text[-400:]
