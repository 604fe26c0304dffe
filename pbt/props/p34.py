"""The modules: loaded in any set and next to any other file, and their handlers answer as documented for any history of requests and scripts."""
import json, os, re, shutil, time
from .common import *
from ..engine import rng_for
from .. import server as S, web as W
RULE = 'a script that runs more than once or fails, several modules, or pipelined requests to the handlers of modules'
FILES = ('viriatum/module/loading.c', 'viriatum/module/loading.h', 'viriatum/system/service.c', 'viriatum/handlers/handler_dispatch.c')
GIF = bytes.fromhex('47494638396101000100f00100ffffff00000021f904010a0000002c00000000010001000002024401003b')
# what else lies in the folder of the modules
JUNK = [['libviriatum_mod_a.so', 'empty'], ['libviriatum_mod_b.so', 'text'], ['libviriatum_mod_c.so', 'dir'], ['libviriatum_mod_d.so', 'dangling'], ['libviriatum_mod_e.so', 'secret'],
        ['libviriatum_mod_other.so', 'gif'], ['libviriatum_mod_gif.so.bak', 'gif'], ['gif.so', 'gif'], ['xlibviriatum_mod_gif.so', 'gif'], ['viriatum_x.so', 'gif'], ['libviriatum_.so', 'lua'],
        ['libviriatum_mod_.so', 'diag'], ['libviriatum_mod_lua', 'lua'], ['readme.txt', 'text'], ['libviriatum_mod_' + 'n' * 230 + '.so', 'gif'], ['.so', 'gif'], ['libviriatum_mod_gi.so', 'gif']]
ERRORS = ['string', 'table', 'nil', 'call', 'deep', 'long', 'zero', 'args', 'many', 'number', 'data', 'conn', 'over', 'minus', 'late', 'nan', 'none']

def action(d):
    k = d.weighted([(6, 'ok'), (4, 'fail'), (2, 'caught'), (1, 'short'), (1, 'const')])
    if k == 'fail': return ['fail', d.choice(ERRORS)]
    n = d.weighted([(6, d.size(400)), (2, d.size(70000)), (1, d.int(100000, 3000000))])
    return [k, n, d.choice(ERRORS[:-1]) if k == 'caught' else d.int(1, 4), d.int(0, 255), d.bool(0.2)]
def script(d):
    k = d.weighted([(8, 'ok'), (1, 'syntax'), (1, 'raise'), (1, 'nohandle'), (1, 'gone')])
    return [k, [action(d) for _ in range(d.int(1, 4))], d.int(0, 3)]

SETUP = r'''
loads = (loads or 0) + 1
n = 0
old = old or {}
local function reply(b, tail) return "HTTP/1.1 200 OK\r\nX-Mod: lua\r\nContent-Length: " .. (#b - (tail or 0)) .. "\r\n\r\n" .. b end
local function rep(c, n) return string.rep(string.char(c), n) end
local function send(s, parts)
  local size = math.ceil(#s / parts)
  if parts == 1 then return write_connection(connection, s, #s) end
  for i = 1, #s, size do local p = s:sub(i, i + size - 1); write_connection(connection, p, #p) end
end
local fails = {
  string = function() error("broken") end, table = function() error({}) end, ["nil"] = function() error(nil) end,
  call = function() missing() end, deep = function() local function f() return 1 + f() end f() end,
  long = function() error(string.rep("x", 300000) .. math.random()) end, zero = function() error("") end,
  args = function() write_connection() end, many = function() write_connection(connection, "a", 1, 2) end,
  number = function() write_connection(connection, "a", {}) end, data = function() write_connection(connection, {}, 1) end,
  conn = function() write_connection("a", "b", 1) end,
  over = function() write_connection(connection, "abc", 4) end, minus = function() write_connection(connection, "abc", -1) end,
  nan = function() write_connection(connection, "abc", -1e300) end,
  late = function() write_connection(connection, "HTTP/1.1 200 OK\r\n", 17); error("late") end,
  none = function() end,
}
'''
def text(sc):
    k, plan, extra = sc
    out = SETUP if k != 'syntax' else SETUP + '\nfunction ( = 3\n'
    if k == 'raise': out += 'error("at load")\n'
    acts = []
    for a in plan:
        if a[0] == 'fail': acts.append('function() fails[%s]() end' % json.dumps(a[1])); continue
        kind, n, par, c, gc = a
        pre = ('collectgarbage(); ' if gc else '') + 'local b = "n" .. n .. "l" .. loads .. rep(%d, %d); ' % (c, n)
        if kind == 'ok': acts.append('function() %ssend(reply(b), %d) end' % (pre, par))
        elif kind == 'caught': acts.append('function() %slocal ok = pcall(fails[%s]); send(reply(b .. tostring(ok)), 1) end' % (pre, json.dumps('over' if par == 'late' else par)))
        elif kind == 'short': acts.append('function() %slocal r = reply(b .. "cut", 3); write_connection(connection, r, #r - 3) end' % pre)
        else: acts.append('function() local b = VIRIATUM_NAME .. "|" .. VIRIATUM_VERSION .. "|" .. VIRIATUM_PLATFORM_STRING .. "|" .. VIRIATUM_PLATFORM_CPU; for i = 1, #old do pcall(write_connection, old[i], "", 0) end; old[#old + 1] = connection; send(reply(b), %d) end' % par)
    out += 'local plan = {%s}\n' % ', '.join(acts)
    if k != 'nohandle': out += 'function handle() local k = n % #plan + 1; n = n + 1; plan[k](); return 1, 2 end\n'
    return out + 'return ' + ', '.join('1' * extra) + '\n' if extra else out

class Model(object):
    """what the interpreter of the module holds"""
    def __init__(self): self.dirty, self.disk = True, None; self.reset()
    def reset(self): self.loads, self.plan, self.n = 0, None, 0
    def request(self):
        """-> status, body"""
        if self.dirty:
            self.dirty = False
            sc = self.disk
            if sc is None or sc[0] in ('gone', 'syntax', 'raise'): self.dirty = True; self.reset(); return 500, None
            self.loads += 1; self.n = 0
            if sc[0] != 'nohandle': self.plan = sc[1]
        if self.plan is None: self.dirty = True; return 500, None
        a = self.plan[self.n % len(self.plan)]; self.n += 1
        # without a written response there is no error of the script, so the file is not loaded again
        if a[0] == 'fail': self.dirty = a[1] != 'none'; return 500, None
        if a[0] == 'const': return 200, 'const'
        b = b'n%dl%d' % (self.n, self.loads) + bytes([a[3]]) * a[1]
        return 200, b + b'false' if a[0] == 'caught' else b

def gen(d):
    mods = [m for m in ('lua', 'gif', 'diag') if d.bool(0.85)]
    twice = d.weighted([(8, None), (1, 'gif'), (1, 'diag')])
    junk = [j for j in JUNK if d.bool(0.12)]
    steps = [['w', script(d)]]
    for _ in range(d.int(1, 14)):
        k = d.weighted([(7, 'r'), (2, 'w'), (1, 'x')])
        if k == 'w': steps.append(['w', script(d)])
        elif k == 'x': steps.append(['x', d.int(0, 3), d.bool()])
        else:
            reqs = [[d.weighted([(5, 'l'), (2, 'g'), (2, 'd'), (1, 'f'), (1, 'u')]), d.bool(0.85)] for _ in range(d.weighted([(4, 1), (2, d.int(2, 3)), (1, d.int(4, 12))]))]
            steps.append(['r', d.int(0, 3), reqs, d.weighted([(6, 'all'), (2, 'slow'), (1, 'cut'), (1, 'hold')]), d.int(0, 2 ** 16)])
    return [mods, twice, junk, d.bool(0.3), d.bool(0.7), steps, d.bool(0.4)]

def fill(srv, env, mods, twice, junk):
    base = os.path.join(srv.root, 'modules')
    shutil.rmtree(base); os.makedirs(base)
    lib = lambda m: os.path.join(env.bin, 'mod_%s.so' % m)
    for m in mods: shutil.copy(lib(m), os.path.join(base, 'libviriatum_mod_%s.so' % m))
    if twice: shutil.copy(lib(twice), os.path.join(base, 'libviriatum_mod_%s_2.so' % twice))
    for n, k in junk:
        p = os.path.join(base, n)
        if k in ('empty', 'text'): W.put(p.encode(), b'' if k == 'empty' else b'not a library\n' * 300)
        elif k == 'dir': os.makedirs(p)
        elif k == 'dangling': os.symlink('/nonexistent/x.so', p)
        elif k == 'secret': shutil.copy(lib('gif'), p); os.chmod(p, 0)
        else: shutil.copy(lib(k), p)

def run(env, case, note):
    mods, twice, junk, template, named, steps, leave = case
    s = W.server(env, 'p34', leaks=True); s.stop()
    fill(s, env, mods, twice, junk)
    path = os.path.join(s.root, 'site.lua' if named else 'default.lua')
    s.ini = '[general]\nlocal=1\nuse_template=%d\n' % template + ''.join('[location:%s]\npath=^/%s\nhandler=%s\n' % (h, h[0], h) for h in ('lua', 'gif', 'diag', 'unknown'))
    if named: s.ini += '[mod_lua]\nscript_path=site.lua\n'
    W.put(os.path.join(s.www, 'x.txt').encode(), b'contents')
    for n in ('site.lua', 'default.lua'):
        if os.path.exists(os.path.join(s.root, n)): os.unlink(os.path.join(s.root, n))
    s.start(); born = time.monotonic()
    have = set(mods) | ({twice} if twice else set())
    label = sorted(mods + ([twice] if twice else []))
    m = Model(); conns = {}; made = [0]; ident = []
    def verify(r, t, keep, live):
        want = (b'close', b'keep-alive')[keep]
        h = {'l': 'lua', 'g': 'gif', 'd': 'diag', 'f': 'file', 'u': None}[t]
        if h != 'file' and h not in have:
            same(r.status, 500, 'status of a handler that is not there'); error(r, keep); return
        if t == 'g':
            same((r.status, r.header(b'Content-Type'), r.body), (200, b'image/gif', GIF), 'response of the gif handler')
        elif t == 'f':
            same((r.status, r.body), (200, b'contents'), 'response of the file handler')
        elif t == 'd':
            same((r.status, r.header(b'Content-Type')), (200, b'application/json'), 'response of the diag handler')
            try: v = json.loads(r.body.decode())
            except ValueError as e: raise Fail('the response of the diag handler is no JSON document (%s): %s' % (e, short(r.body)))
            same(list(v), ['name', 'version', 'platform', 'flags', 'compiler', 'compiler_version', 'compilation_date', 'compilation_time', 'compilation_flags', 'modules', 'description', 'status', 'port', 'uptime', 'connections'], 'names in the diagnostics')
            same(r.header(b'Server'), v['description'].encode(), 'Server header')
            same(v['description'], '%s/%s (%s) (%s)' % (v['name'], v['version'], v['platform'], v['flags']), 'description in the diagnostics')
            same((v['name'], sorted(v['modules'].split()), v['port'], v['status']), ('viriatum', label, s.port, 1), 'name, modules, port and status in the diagnostics')
            up = re.match(r'^(?:(\d+) minutes? )?(\d+) seconds? ?$', v['uptime'])
            if not up: raise Fail('uptime in the diagnostics: %r' % v['uptime'])
            up = int(up.group(1) or 0) * 60 + int(up.group(2)); el = time.monotonic() - born
            expect(el - 3 - S.ANSWER < up <= el + 2, 'uptime %d in the diagnostics after %.1f seconds', up, el)
            expect(live + 1 <= v['connections'] <= made[0] + 2, '%d connections in the diagnostics with %d open ones of %d and the listening one', v['connections'], live, made[0])
            note.label('diag')
        if t in 'gd': same((r.header(b'Connection') or b'').lower(), want, 'Connection header')
    def error(r, keep):
        if not template: same(r.body, b'500 - Internal Server Error - ' + r.header(b'Server'), 'body of the error')
        same((r.header(b'Connection') or b'').lower(), (b'close', b'keep-alive')[keep], 'Connection header of the error')
    def script_response(r, want, keep):
        same(r.status, want[0], 'status of the script (%s)' % (short(r.body) if r.status == 500 else ''))
        if want[0] == 500: error(r, keep); return
        same(r.header(b'X-Mod'), b'lua', 'header of the script')
        if want[1] == 'const':
            p = r.body.decode().split('|')
            same((len(p), p[0]), (4, 'viriatum'), 'constants of the script'); ident.append((p[1], p[2], p[3]))
            expect(all(i == ident[0] for i in ident), 'constants of the script: %s', ident)
        elif r.body != want[1]: raise Fail('the body is %s, and the script wrote %s' % (short(r.body, 80), short(want[1], 80)))
    def expected(t):
        if t != 'l' or 'lua' not in have: return None
        w = m.request(); note.label('script %d' % w[0]); return w
    def finish(i):
        c, todo = conns[i]
        for t, keep, want in todo:
            r = c.response()
            if want: script_response(r, want, keep)
            else: verify(r, t, keep, 0)
            if not keep: c.expect_close(); c.close(); del conns[i]; return
        conns[i] = (c, [])
    runs = 0
    try:
        for st in steps:
            if st[0] == 'w':
                m.disk = st[1]
                if st[1][0] == 'gone':
                    if os.path.exists(path): os.unlink(path)
                else: W.put(path.encode(), text(st[1]).encode())
                continue
            if st[0] == 'x':
                if st[1] in conns:
                    c, _ = conns.pop(st[1])
                    c.reset() if st[2] else c.close()
                    note.label('abandoned')
                continue
            _, i, reqs, mode, seed = st
            if i in conns and conns[i][1]: finish(i)
            if i not in conns: conns[i] = (s.connect(rcvbuf=4096 if mode in ('slow', 'cut', 'hold') else None), []); made[0] += 1
            c = conns[i][0]
            # with responses that nobody reads the order to the requests of other connections is not known
            if mode in ('cut', 'hold'): reqs = reqs[:1]
            # nothing is sent after a request that closes: data that the server does not read resets the connection
            last = [j for j, (t, k) in enumerate(reqs) if not k]
            if last: reqs = reqs[:last[0] + 1]
            wire = b''.join(S.request(b'/x.txt' if t == 'f' else b'/' + t.encode(), keep=k) for t, k in reqs)
            note.label('pipelined', len(reqs) > 1); runs += len(reqs)
            if mode == 'slow':
                rng = rng_for('p34', seed); cut = rng.randint(1, len(wire) - 1)
                c.send(wire[:cut]); time.sleep(0.002); c.send(wire[cut:], False)
            else: c.send(wire, False)
            todo = []
            for t, k in reqs:
                todo.append((t, k, expected(t)))
                if not k: break
            if mode in ('cut', 'hold'):
                if not c.buf and not c.fill(): s.gone(); raise Fail('the connection was closed without a response')
                note.label(mode)
                if mode == 'cut': c.reset() if seed % 2 else c.close(); del conns[i]
                else: conns[i] = (c, todo)
                continue
            live = sum(1 for _, w in conns.values() if all(k for _, k, _ in w))
            for t, k, want in todo:
                r = c.response()
                if want: script_response(r, want, k)
                else: verify(r, t, k, live)
                if not k: c.expect_close(); c.close(); del conns[i]; break
        for i in list(conns):
            # some responses are still being sent when the server is asked to stop
            if leave and conns[i][1]: note.label('left'); continue
            if conns[i][1]: finish(i)
        if ident:
            v = s.get(b'/x.txt').header(b'Server').decode(); made[0] += 1
            expect(v.startswith('viriatum/%s (%s - %s)' % ident[0]), 'constants of the script: %s, and the Server header is %s', ident[0], v)
        note.nt = runs > 1 and bool(have)
        note.label('junk', bool(junk)); note.label('twice', bool(twice)); note.label('no modules', not have)
        s.finish()
    finally:
        for c, _ in conns.values(): c.close()
        s.stop()

# the memory of the interpreter does not grow with the failures of a script
def gen_grow(d):
    return [d.choice(ERRORS), d.int(30, 60), d.int(0, 3), d.bool()]
def run_grow(env, case, note):
    err, n, extra, keep = case
    s = W.server(env, 'p34g', leaks=True, stat=True); s.stop()
    fill(s, env, ['lua'], None, []); s.ini = '[location:lua]\npath=^/l\nhandler=lua\n'
    W.put(os.path.join(s.root, 'default.lua').encode(), text(['ok', [['fail', err], ['fail', 'long']], extra]).encode())
    s.start()
    try:
        c = s.connect() if keep else None; use = []
        for i in range(n * 3):
            if keep: c.send(S.request(b'/l', keep=True)); r = c.response()
            else: r = s.get(b'/l')
            same(r.status, 500, 'status of request %d' % i)
            if (i + 1) % n == 0: use.append(s.usage()[0])
        if c: c.close()
        # the texts are 300000 bytes long, the collector holds a few of them
        expect(use[2] - use[0] < 6000000, 'the process allocates %s bytes after %d, %d and %d requests that fail', use, n, 2 * n, 3 * n)
        note.nt = True; note.label(err); s.finish()
    finally: s.stop()
CHECKS = [Check('modules', gen, run, 3200, files=FILES), Check('grow', gen_grow, run_grow, 40, files=FILES)]
