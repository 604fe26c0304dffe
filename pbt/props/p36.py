import os, resource, signal, socket, threading, time
from .common import *
from ..engine import rng_for
from .. import life as L, server as S, web as W
RULE = 'connections that are open, within a request or a response, in use by a backend or within a handshake when the signal arrives'
FILES = ('viriatum/system/service.c', 'viriatum/stream/stream_io.c', 'viriatum/polling/polling_epoll.c', 'viriatum/handlers/handler_proxy.c')
SIGNALS = [signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGQUIT]
def gen(d):
    conf = L.config(d); workers = d.weighted([(6, 0), (1, 1), (1, 3)])
    steps = [L.step(d, conf[0]) for _ in range(d.weighted([(1, 0), (6, d.int(1, 4)), (3, d.int(4, 12))]))]
    return [conf, steps, d.choice(SIGNALS), d.weighted([(3, 0), (2, 1), (2, 10), (1, 40)]), d.weighted([(4, None), (1, d.choice(SIGNALS))]), d.weighted([(2, 0), (1, d.int(1, 40))]), d.bool(0.5) or workers > 0, d.int(0, 2 ** 16), workers]
def run(env, case, note):
    conf, steps, sig, delay, second, storm, again, seed, workers = case
    if 'life' not in env.cache: env.cache['life'] = (L.Backend(env), S.free_port(env.tag))
    b, dead = env.cache['life']; rng = rng_for('p36', seed)
    s = W.server(env, 'p36w', variant='prefork') if workers else W.server(env, 'p36')
    s.stop(); s.ini = L.ini(env, conf, b, dead).replace('[general]\n', '[general]\nworkers=%d\n' % workers); s.start()
    c = L.Client(s, conf, note); more = []
    try:
        for st in steps: c.run(st)
        note.nt = bool(c.open)
        if delay: time.sleep(delay / 1000.0)
        # requests that are under way when the signal arrives
        for _ in range(storm):
            k = s.connect(); more.append(k)
            if rng.random() < 0.8: k.send(S.request(rng.choice([b'/f/a.txt', b'/f/big', b'/p/ok', b'/f/']), keep=rng.random() < 0.5), False)
        note.label('storm', storm); note.label('signal %d' % sig)
        s.died()
        note.label('two signals', second not in (None, sig))
        port = s.port
        group = s.p.pid
        s.finish(sig, second, keep=workers > 0); note.label('workers', workers)
        if workers:
            # a worker that is still there would take connections
            end = time.monotonic() + S.ANSWER; there = True
            while there and time.monotonic() < end:
                try: socket.create_connection(('127.0.0.1', port), 1).close(); time.sleep(0.002)
                except OSError: there = False
            try: os.killpg(group, signal.SIGKILL)
            except OSError: pass
            if there: raise Fail('something accepts connections after the end of the master process')
        for k in c.open + more:
            raw = k.s.sock if hasattr(k.s, 'sock') else k.s; raw.settimeout(S.ANSWER)
            try:
                while raw.recv(1 << 20): pass
            except socket.timeout: raise Fail('a connection is still open after the end of the process')
            except OSError: pass
        if again:
            # the port is free for the next process while old connections may linger
            try: s.start(port)
            except Crash as e: raise Fail('the server does not start again on its port: %s' % e)
            n = L.Client(s, conf, note); n.run(['ask', b'/f/a.txt', [], 'stay', 1])
            k = n.dial(rng); k.send(S.request(b'/f/a.txt')); r = k.response(); k.close(); n.close()
            same((r.status, r.body), (200, b'0123456789abcdef'), 'response after the start on the same port'); note.label('again')
            if conf[3]:
                k = n.dial(rng, six=True); k.send(S.request(b'/f/a.txt')); r = k.response(); k.close()
                same((r.status, r.body), (200, b'0123456789abcdef'), 'response over IPv6 after the start on the same port'); note.label('again over IPv6')
            s.finish()
    finally:
        c.close(); b.clear(); s.stop()
        for k in more: k.close()
def gen_crowd(d):
    return [d.weighted([(1, d.int(100, 1000)), (3, d.int(1030, 2200)), (1, d.int(2200, 5000))]), d.choice(['open', 'part', 'kept', 'slow', 'mixed']), d.choice(SIGNALS), d.int(0, 2 ** 16)]
def run_crowd(env, case, note):
    """more connections than fit in one round of events"""
    n, kind, sig, seed = case
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
    if hard != resource.RLIM_INFINITY: n = min(n, hard - 200)
    s = W.server(env, 'p36c'); s.stop(); rng = rng_for('p36c', seed); s.start(); cs = []
    W.put(os.path.join(s.www, 'big').encode(), bytes(3000000))
    try:
        for i in range(n):
            k = kind if kind != 'mixed' else rng.choice(['open', 'part', 'kept', 'slow'])
            if k == 'slow' and i > 1500: k = 'part'
            c = s.connect(rcvbuf=4096 if k == 'slow' else None); cs.append(c)
            if k == 'part': c.send(b'GET /none HT')
            elif k == 'kept': c.send(S.request(b'/none', keep=True)); same(c.response().status, 404, 'status')
            elif k == 'slow': c.send(S.request(b'/big', keep=True))
        same(s.get(b'/none').status, 404, 'status of another connection')
        s.finish(sig)
        for c in cs:
            c.s.settimeout(S.ANSWER)
            try:
                while c.s.recv(1 << 20): pass
            except socket.timeout: raise Fail('a connection is still open after the end of the process')
            except OSError: pass
    finally:
        s.stop()
        for c in cs: c.close()
    note.nt = True; note.label(kind); note.label('over 1024', n > 1024)
CHECKS = [Check('stop', gen, run, 1600, files=FILES), Check('crowd', gen_crowd, run_crowd, 24, files=FILES)]
