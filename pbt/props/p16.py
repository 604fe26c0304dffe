"""The start of the process: the settings that are valid take effect, the others are refused, and the daemon runs in the background."""
import ctypes, os, re, shutil, signal, socket, ssl, subprocess, time
from .common import *
from ..engine import rng_for
from ..worker import Crash, drop, summary
from .. import server as S, web as W
from .p35 import Tls, DATA
RULE = 'settings from the file and the command line at once, a fallback of a certificate, workers, a refusal or a daemon'
FILES = ('viriatum/viriatum.c', 'viriatum/system/service.c', 'viriatum/global/common.h')
HOSTS = ['127.0.0.1', '127.0.0.2', '127.1.2.3', '0.0.0.0']
FILLS = ['good', 'good', 'good', 'good', 'second', 'second', 'garbage', 'empty', 'other', 'secret', 'dir']
ON, OFF = ['1', 'On', 'True'], ['0', 'Off', 'False', 'no']
def switch(d):
    """how something is switched on: the value in the file, is it in the arguments"""
    return d.weighted([(3, [d.choice(ON), False]), (2, [None, True]), (1, [d.choice(ON), True]), (1, [d.choice(OFF), True])])
def settings(d):
    """-> [host in the file, host of the arguments, is the port in the file, in the arguments, ip6, tls, workers, handler, arguments before]"""
    hf, ha = (d.choice(HOSTS) if d.bool(0.5) else None for _ in range(2))
    tls = None
    if d.bool(0.35):
        # where the certificate and the key lie: the named file, in the configuration folder, then the defaults
        tls = [[d.bool(0.75), [[p, d.choice(FILLS)] for p in range(4) if d.bool(0.45)]] for _ in range(2)]
        if d.bool(0.4): tls[1] = [tls[0][0], [[p, f if f in ('good', 'second') else 'good'] for p, f in tls[0][1]]]
        tls.append(switch(d))
    return [hf, ha, d.choice(['file', 'args', 'both']), d.weighted([(3, None), (3, [d.choice(['[::1]', '[::]', '::1', None]), switch(d)]), (1, [d.choice(['[::1]', '[x]']), [d.choice(OFF + [None]), False]])]), tls, d.weighted([(4, None), (1, ['file', d.int(1, 3)]), (1, ['args', d.int(1, 3)]), (1, ['both', d.int(1, 3)])]),
            [d.weighted([(4, 'default'), (4, 'dispatch'), (4, 'file'), (1, 'nothing')]) if d.bool(0.5) else None for _ in range(2)], d.bool(0.3), d.bool(0.3)]
def gen_start(d):
    st = settings(d)
    fault = d.weighted([(6, None), (1, ['host', d.choice(['junk', 'localhost', '127.0.0.256', '1.2.3.4.5', '::1', '', '300.1.1.1', 'h' * 900]), d.bool()]), (1, ['away', d.choice(['198.51.100.7', '203.0.113.9']), d.bool()]),
        (1, ['used', d.choice(['same', 'any'])]), (1, ['used6', d.choice(['::1', '::'])]), (1, ['ip6', d.choice(['', '[]', '[', 'x', '[junk]', '[::1', '::1]', '[:::1]', 'x::1x', '(::1)', '[[::1]]', '[12345::]', '[1::2::3]', '[127.0.0.1]', '[' + '1' * d.int(1, 1500) + ']', '1' * d.int(1, 1500), '[2001:db8::7]', '[::1%lo]'])])])
    return [st, fault, d.choice([15, 2, 1, 3]), d.int(0, 2 ** 16)]
def gen_daemon(d):
    st = settings(d); st[4] = None
    return [st, d.weighted([(4, None), (1, ['used', 'same']), (1, ['host', 'junk', True])]), d.choice([15, 2, 1, 3]), d.weighted([(5, True), (1, False)]), d.weighted([(5, True), (1, False)]), d.bool(0.3), d.int(0, 2 ** 16)]
def gen_command(d):
    args = [d.choice(['--port=%d' % d.int(1, 65535), '--daemon', '--handler=file', 'x', '--unknown=' + 'v' * d.size(900), '--ssl', '--workers=2', '--version=', '--version=1', '-version', '-help', '--test', '--speed']) for _ in range(d.size(6))]
    args.insert(d.int(0, len(args)), d.choice(['--help', '--version', '--help=start', '-help']))
    return args

def children():
    """processes that are ours, also those whose parent has ended"""
    me, out = os.getpid(), []
    for n in os.listdir('/proc'):
        if not n.isdigit(): continue
        try:
            with open('/proc/%s/stat' % n) as f: t = f.read().rsplit(')', 1)[1].split()
        except (OSError, IndexError): continue
        if int(t[1]) == me: out.append((int(n), t[0]))
    return out
def offspring(pid):
    out = []
    for n in os.listdir('/proc'):
        if not n.isdigit(): continue
        try:
            with open('/proc/%s/stat' % n) as f: t = f.read().rsplit(')', 1)[1].split()
        except (OSError, IndexError): continue
        if int(t[1]) == pid and t[0] != 'Z': out.append(int(n))
    return out
def ended(pid):
    """-> exit status of a child of ours, None while it runs"""
    try: p, st = os.waitpid(pid, os.WNOHANG)
    except ChildProcessError: return 'unknown'
    return None if p == 0 else os.waitstatus_to_exitcode(st)

class Place(object):
    """a folder with the files of one process"""
    def __init__(self, env, st):
        hf, ha, where, ip6, tls, workers, handler, self.junk, template = st
        if 'n' not in env.cache:
            env.cache['n'] = 0
            ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)    # orphans become our children
        env.cache['n'] += 1
        self.env, self.root = env, os.path.join(env.tmp, 'p16-%d' % env.cache['n'])
        for f in ('conf/cert', 'cert', 'modules', 'www/templates', 'var/run', 'var/log'): os.makedirs(os.path.join(self.root, f))
        for f in ('listing.html.tpl', 'error.html.tpl'): shutil.copy(os.path.join(S.RES, f), os.path.join(self.root, 'www/templates'))
        self.exe = S.program(env, 'prefork' if workers else None)
        # the variant with workers may be one that this tree does not build
        if not os.path.exists(self.exe): workers, self.exe = None, S.program(env, None)
        W.put(os.path.join(self.root, 'www', 'x.txt'), b'contents')
        self.port, self.other = S.free_port(env.tag), S.free_port(env.tag)
        self.g, self.a = {}, []
        if hf is not None: self.g['host'] = hf
        if ha is not None: self.a.append('--host=' + ha)
        self.host = ha or hf or '0.0.0.0'
        if where in ('file', 'both'): self.g['port'] = self.other if where == 'both' else self.port
        if where in ('args', 'both'): self.a.append('--port=%d' % self.port)
        self.both = where == 'both'
        self.ip6 = None
        if ip6:
            h, sw = ip6
            if h: self.g['ip6_host'] = h
            if sw[0] in ON or sw[1]: self.ip6 = h or '[::]'
            self.switch('ip6', sw)
        self.workers = 0
        if workers:
            w, self.workers = workers
            if w in ('file', 'both'): self.g['workers'] = self.workers if w == 'file' else self.workers % 3 + 1
            if w in ('args', 'both'): self.a.append('--workers=%d' % self.workers)
        if handler[0]: self.g['handler'] = handler[0]
        if handler[1]: self.a.append('--handler=' + handler[1])
        self.handler = handler[1] or handler[0] or 'dispatch'
        if template: self.g['use_template'] = '1'
        self.tls, self.fault = False, None
        if tls:
            self.tls = True; self.switch('ssl', tls[2]); pair = []
            for (named, files), key, own, default, kind in ((tls[0], 'ssl_csr', 'my.crt', 'server.crt', 'cert.pem'), (tls[1], 'ssl_key', 'my.key', 'server.key', 'key.pem')):
                if named: self.g[key] = own
                chosen = None
                for i, fill in files:
                    path = os.path.join(self.root, [own, 'conf/' + own, 'cert/' + default, 'conf/cert/' + default][i])
                    if fill == 'dir': os.makedirs(path)
                    elif fill == 'good': shutil.copy(os.path.join(DATA, kind), path); os.chmod(path, 0o644)
                    elif fill == 'second': shutil.copy(os.path.join(DATA, kind.replace('.', '2.')), path); os.chmod(path, 0o644)
                    elif fill == 'other': shutil.copy(os.path.join(DATA, {'cert.pem': 'key.pem', 'key.pem': 'cert.pem'}[kind]), path)
                    else: W.put(path, b'' if fill == 'empty' else b'-----BEGIN CERTIFICATE-----\nAAAA\n'); os.chmod(path, 0 if fill == 'secret' else 0o644)
                    if chosen is None and (i > 1 or named): chosen = fill
                pair.append(chosen)
                if chosen not in ('good', 'second'): self.fault = ['tls', key, chosen]
            if not self.fault and pair[0] != pair[1]: self.fault = ['tls', 'pair', pair]
            with open(os.path.join(DATA, 'cert2.pem' if pair[0] == 'second' else 'cert.pem')) as f: self.der = ssl.PEM_cert_to_DER_cert(f.read())
        if self.handler == 'nothing': self.fault = ['handler', self.handler]
        if self.junk: self.a = ['x', '-q', '--unknown=1'] + self.a
    def switch(self, name, sw):
        if sw[0]: self.g[name] = sw[0]
        if sw[1]: self.a.append('--' + name)
    def start(self, extra=()):
        with open(os.path.join(self.root, 'conf/viriatum.ini'), 'w') as f: f.write('[general]\n' + ''.join('%s=%s\n' % kv for kv in self.g.items()) + '[location:x]\npath=^/f\nhandler=file\nbase_path=%s/www\n' % self.root)
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_allocation_size_mb=2000:hard_rss_limit_mb=2500:quarantine_size_mb=64:handle_abort=1:detect_odr_violation=0', LC_ALL='C', TZ='UTC', VERIF_ROOT=self.root)
        self.out, self.err = (open(os.path.join(self.root, n), 'wb') for n in ('out', 'err'))
        self.before = {p for p, _ in children()}
        if extra: os.makedirs(os.path.join(self.root, 'start'), 0o777, exist_ok=True)
        return subprocess.Popen([self.exe] + self.a + list(extra), cwd=os.path.join(self.root, 'start') if extra else self.root, env=e, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.err, start_new_session=True, preexec_fn=drop)
    def text(self, n):
        try:
            with open(os.path.join(self.root, n), 'rb') as f: return f.read().decode('utf-8', 'replace')
        except OSError: return ''
    def check(self):
        for n in ('err', 'var/log/viriatum.err', 'out', 'var/log/viriatum.log'):
            if 'Sanitizer' in self.text(n): raise Crash('the server dies when it starts or ends: %s' % summary(self.text(n)))
    died = gone = lambda self, *a: self.check()
    def addresses(self):
        """-> reachable and unreachable ones"""
        yes = [h for h in HOSTS[:3] if self.host in ('0.0.0.0', h)]; no = [h for h in HOSTS[:3] if h not in yes]
        (yes if self.ip6 else no).append('::1')
        return yes, no
    def connect(self, h, port=None):
        s = socket.socket(socket.AF_INET6 if ':' in h else socket.AF_INET); s.settimeout(S.ANSWER)
        try: s.connect((h, port or self.port))
        except OSError: s.close(); raise
        return s
    def wait(self, over):
        """until all addresses take connections; over() tells that the process has ended"""
        end = time.monotonic() + S.ANSWER + 6; todo = self.addresses()[0]
        while todo:
            try: self.connect(todo[0]).close(); todo = todo[1:]
            except OSError:
                if over(): self.check(); raise Fail('the server ends with valid settings: %s' % (self.text('out') + self.text('var/log/viriatum.log'))[-300:])
                if time.monotonic() > end: raise Fail('no answer within %d s: nothing listens on %s' % (S.ANSWER, todo))
                time.sleep(0.003)
    def ask(self, h, rng):
        s = self.connect(h); c = S.Conn(self, s)
        try:
            if self.tls: c.s = Tls(s, rng.choice([2, 3]), 0, rng); c.s.settimeout(S.ANSWER)
            target = rng.choice([b'/f/x.txt', b'/x.txt']) if self.handler != 'dispatch' else b'/f/x.txt'
            c.send(S.request(target)); r = c.response()
            if self.tls: same(c.s.o.getpeercert(True) == self.der, True, 'is the certificate the one of the first file that exists')
        except (OSError, S.Closed) as e: self.check(); raise Fail('no response over %s: %s' % (h, e))
        finally: c.close()
        want = {'default': (200, b'Hello Viriatum'), 'file': (200, b'contents') if target == b'/x.txt' else (404, None), 'dispatch': (200, b'contents')}[self.handler]
        same(r.status, want[0], 'status of the handler %s over %s' % (self.handler, h))
        if want[1]: same(r.body, want[1], 'body of the handler %s over %s' % (self.handler, h))
        return r
    def closed(self, what):
        yes, no = self.addresses()
        for h, port in [(h, self.port) for h in no] + ([(h, self.other) for h in yes] if self.both else []):
            try: self.connect(h, port).close()
            except OSError: continue
            raise Fail('the server listens on %s port %d, which %s' % (h, port, what))
    def serve(self, rng, note):
        for h in self.addresses()[0]:
            for _ in range(2 if self.workers else 1): self.ask(h, rng)
        self.closed('is not in its settings')
        note.label('tls', self.tls); note.label('ip6', bool(self.ip6)); note.label('workers', self.workers); note.label('handler ' + self.handler)
    def count(self, pid):
        # the workers are created after the socket takes connections
        end = time.monotonic() + S.ANSWER
        while len(offspring(pid)) != self.workers and time.monotonic() < end: time.sleep(0.005)
        same(len(offspring(pid)), self.workers, 'number of worker processes')
    def silent(self):
        """nothing listens any more"""
        end = time.monotonic() + S.ANSWER; todo = self.addresses()[0]
        while todo:
            try: self.connect(todo[0]).close(); time.sleep(0.003)
            except OSError: todo = todo[1:]; continue
            if time.monotonic() > end: raise Fail('something listens on %s after the end of the process' % todo[0])
    def clean(self, p=None):
        if p is not None:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            try: p.wait(20)
            except subprocess.TimeoutExpired: pass
        for pid, _ in children():
            if pid in self.before: continue
            try: os.killpg(os.getpgid(pid), signal.SIGKILL) if os.getpgid(pid) != os.getpgid(0) else os.kill(pid, signal.SIGKILL)
            except OSError: pass
            try: os.waitpid(pid, 0)
            except ChildProcessError: pass
        self.out.close(); self.err.close()
        shutil.rmtree(self.root, ignore_errors=True)
def apply(pl, fault):
    """-> sockets that are in the way"""
    hold = []
    k = fault[0]
    if k in ('host', 'away'):
        pl.a = [a for a in pl.a if not a.startswith('--host=')]
        # an empty value counts as absent for the arguments
        if fault[2] and fault[1]: pl.a.append('--host=' + fault[1])
        else: pl.g['host'] = fault[1]
        if not fault[1]: pl.a = [a for a in pl.a if not a.startswith('--host')]
    elif k == 'used':
        s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(('0.0.0.0' if fault[1] == 'any' else pl.host, pl.port)); s.listen(1); hold.append(s)
    elif k == 'used6':
        if not pl.ip6: pl.ip6 = '[::1]'; pl.g['ip6'] = '1'; pl.g['ip6_host'] = '[::1]'
        s = socket.socket(socket.AF_INET6); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
        s.bind((fault[1], pl.port)); s.listen(1); hold.append(s)
    else: pl.g['ip6'] = '1'; pl.g['ip6_host'] = fault[1]; pl.ip6 = pl.ip6 or '[::1]'
    return hold
def refused(pl, fault):
    for h in pl.addresses()[0]:
        if fault[0] in ('used', 'used6'): continue
        try: pl.connect(h).close()
        except OSError: continue
        raise Fail('something listens on %s after the start was refused' % h)

def run_start(env, case, note):
    st, fault, sig, seed = case
    rng = rng_for('p16', seed); pl = Place(env, st); hold = []; p = None
    try:
        if fault: hold = apply(pl, fault); pl.fault = fault
        p = pl.start()
        note.nt = bool(pl.fault or pl.tls or pl.workers or pl.both or (st[0] and st[1]))
        if pl.fault:
            try: rc = p.wait(S.ANSWER + 8)
            except subprocess.TimeoutExpired: raise Fail('no answer within %d s: the server does not refuse to start: %s' % (S.ANSWER + 8, short(pl.fault)))
            pl.check()
            if rc <= 0: raise Fail('the server ends with status %d with settings that are not valid: %s' % (rc, short(pl.fault)))
            if 'Problem' not in pl.text('out') + pl.text('err'): raise Fail('the server does not tell why it refuses to start (%s): %s' % (short(pl.fault), short(pl.text('out'))))
            refused(pl, pl.fault)
            note.label('refused: ' + pl.fault[0]); return
        pl.wait(lambda: p.poll() is not None); pl.serve(rng, note)
        pl.count(p.pid)
        p.send_signal(sig)
        try: rc = p.wait(S.ANSWER + 8)
        except subprocess.TimeoutExpired: raise Fail('no answer within %d s: the server does not end after signal %d' % (S.ANSWER + 8, sig))
        pl.check(); same(rc, 0, 'exit status'); pl.silent()
        note.label('served')
    finally:
        for s in hold: s.close()
        pl.clean(p)

def run_daemon(env, case, note):
    st, fault, sig, run, log, old, seed = case
    rng = rng_for('p16d', seed); pl = Place(env, st); hold = []; p = None
    try:
        pid_path = os.path.join(pl.root, 'var/run/viriatum.pid')
        # the pid file of a process that is no longer there
        if old and run: W.put(pid_path, b'99999999\n'); os.chmod(pid_path, 0o666)
        # logs of an earlier run
        elder = {}
        for n in ('log', 'err'):
            if log and rng.random() < 0.5: elder[n] = 'earlier %s\n' % n; W.put(os.path.join(pl.root, 'var/log/viriatum.' + n), elder[n].encode()); os.chmod(os.path.join(pl.root, 'var/log/viriatum.' + n), 0o666)
        if not run: os.rmdir(os.path.join(pl.root, 'var/run'))
        if not log: os.rmdir(os.path.join(pl.root, 'var/log'))
        if fault: hold = apply(pl, fault); pl.fault = fault
        p = pl.start(['--daemon'])
        try: rc = p.wait(S.ANSWER)
        except subprocess.TimeoutExpired: raise Fail('no answer within %d s: the process does not go to the background' % S.ANSWER)
        pl.check(); same(rc, 0, 'exit status of the process that was started')
        pids = [q for q, _ in children() if q not in pl.before and q != p.pid]
        if len(pids) != 1: raise Fail('%d processes in the background' % len(pids))
        pid = pids[0]; state = [None]
        def over():
            if state[0] is None: state[0] = ended(pid)
            return state[0] is not None
        note.nt = True
        if pl.fault:
            end = time.monotonic() + S.ANSWER + 8
            while not over():
                if time.monotonic() > end: raise Fail('the daemon does not refuse to start: %s' % short(pl.fault))
                time.sleep(0.005)
            pl.check()
            if state[0] <= 0: raise Fail('the daemon ends with status %s with settings that are not valid: %s' % (state[0], short(pl.fault)))
            if log and 'Problem' not in pl.text('var/log/viriatum.log') + pl.text('var/log/viriatum.err'): raise Fail('the log does not tell why the daemon ended')
            refused(pl, pl.fault); note.label('refused')
        else:
            pl.wait(over)
            if run: same(pl.text('var/run/viriatum.pid'), '%d\n' % pid, 'pid file')
            if os.getsid(pid) != pid: raise Fail('the daemon is not the leader of a session of its own')
            if not os.path.exists(os.path.join(pl.root, 'cwd')) or pl.text('cwd') != os.path.realpath(pl.root): raise Fail('the daemon does not leave the folder it was started in')
            pl.serve(rng, note); pl.count(pid)
            os.kill(pid, sig); end = time.monotonic() + S.ANSWER + 8
            while not over():
                if time.monotonic() > end: raise Fail('no answer within %d s: the daemon does not end after signal %d' % (S.ANSWER + 8, sig))
                time.sleep(0.003)
            pl.check(); same(state[0], 0, 'exit status of the daemon'); pl.silent(); note.label('served')
            if log: same((pl.text('out'), pl.text('err')), ('', ''), 'output of the daemon to its first terminal')
        for n in ('log', 'err') if log else ():
            path = os.path.join(pl.root, 'var/log/viriatum.' + n)
            if not os.path.exists(path): raise Fail('the daemon has no %s file' % n)
            if not pl.text('var/log/viriatum.' + n).startswith(elder.get(n, '')): raise Fail('the daemon overwrites the %s file of an earlier run' % n)
            if n not in elder: same(oct(os.stat(path).st_mode & 0o777), '0o640', 'mode of the %s file' % n)
        if os.path.exists(pid_path): raise Fail('the pid file is still there after the end of the daemon')
        note.label('no folder', not run or not log); note.label('old pid file', old and run)
    finally:
        for s in hold: s.close()
        pl.clean(p)

def run_command(env, case, note):
    pl = Place(env, [None, None, 'args', None, None, None, [None, None], False, False]); p = None
    try:
        pl.a = case; p = pl.start()
        try: rc = p.wait(S.ANSWER)
        except subprocess.TimeoutExpired: raise Fail('no answer within %d s: %s does not end' % (S.ANSWER, case))
        pl.check(); out = pl.text('out'); same(rc, 0, 'exit status of %s' % case)
        names = {a.lstrip('-').split('=')[0] for a in case if a.startswith('-')}
        if 'help' in names:
            for w in ('version', 'help'):
                if '--' + w not in out: raise Fail('the help of %s does not name --%s: %s' % (case, w, short(out)))
        elif not re.match(r'^viriatum - \d\S* \(.+\)\n$', out): raise Fail('the version of %s is %s' % (case, short(out)))
        left = [q for q, _ in children() if q not in pl.before and q != p.pid]
        if left: raise Fail('%s leaves processes in the background' % case)
        if os.path.exists(os.path.join(pl.root, 'var/run/viriatum.pid')): raise Fail('%s writes a pid file' % case)
        note.nt = len(case) > 1
    finally: pl.clean(p)
CHECKS = [Check('start', gen_start, run_start, 1600, files=FILES), Check('daemon', gen_daemon, run_daemon, 400, files=FILES), Check('commands', gen_command, run_command, 400, files=FILES)]
