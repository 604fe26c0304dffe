import os, random, time
from .common import *
from .. import web as W, server as S
RULE = 'the file is larger than one block, or its name needs escapes, or its extension is in other case, or the client reads slowly, or the name does not exist'
FILES = ('viriatum/handlers/handler_file.*', 'viriatum/http/http_util.*', 'viriatum/system/service.*')
def fname(d): return (W.name(d, long=d.bool(0.3)) + W.ext(d))[:250]
def gen_small(d):
    depth = [fname(d) for _ in range(d.weighted([(3, 0), (2, 1), (1, 3)]))]
    files = []
    for _ in range(d.int(1, 3)):
        n = fname(d)
        if n in (b'.', b'..'): n = b'f'
        files.append([n, [d.int(0, 2 ** 16), d.size(300000, small=60) if d.bool(0.3) else d.size(6000, small=60)]])
    reqs = []
    for _ in range(d.int(1, 4)):
        i = d.int(0, len(files) - 1)
        n = files[i][0]; miss = d.bool(0.15)
        if miss: n = n[:-1] if d.bool() and len(n) > 1 else n + d.choice([b'x', b'.', b'~', b'/', b'/x'])
        if n in (b'.', b'..'): n = b'zz'
        reqs.append([i, n, W.spell(d, b'/'.join(depth + [n])), d.choice([b'', b'', b'', b'?', b'?a=b', b'?x=/../y?z']), d.choice([b'1.1', b'1.1', b'1.0']), d.bool(0.5)])
    return [depth, files, reqs]
def expected(path, data, note):
    return data, W.mime(os.path.basename(path))
def check_ok(r, path, data):
    same(r.status, 200, 'status of ' + short(path))
    if r.body != data:
        i = next((k for k in range(min(len(r.body), len(data))) if r.body[k] != data[k]), min(len(r.body), len(data)))
        raise Fail('the body has %d bytes and differs from the %d bytes of the file at %d' % (len(r.body), len(data), i))
    same(r.header(b'Content-Length'), b'%d' % len(data), 'Content-Length')
    same(r.header(b'Content-Type'), W.mime(os.path.basename(path)), 'Content-Type of %r' % os.path.basename(path))
    same(r.header(b'Accept-Ranges'), b'bytes', 'Accept-Ranges')
    expect(r.header(b'ETag'), 'no ETag')
    expect(r.header(b'Content-Range') is None, 'unexpected Content-Range')
def run(env, case, note):
    depth, files, reqs = case
    s = W.server(env)
    with W.Tree(s) as t:
        d = t.path
        if len(b'/'.join([t.rel] + depth)) > 600: depth = depth[:1]; reqs = []
        for x in depth:
            d = os.path.join(d, x); os.mkdir(d)
        content = {}
        for n, b in files:
            content[n] = blob(*b); W.put(os.path.join(d, n), content[n])
        conn = None
        for i, n, sp, q, ver, keep in reqs:
            target = b'/' + t.rel + b'/' + sp + q
            if len(target) > 3900: continue
            if conn is None: conn = s.connect()
            conn.send(S.request(target, version=ver, keep=keep))
            r = conn.response()
            if not keep: conn.expect_close(); conn.close(); conn = None
            if n in content:
                check_ok(r, n, content[n])
                if any(c not in W.SAFE for c in n) or len(content[n]) > 262144 or n != n.lower(): note.nt = True
                note.label('mime', W.mime(n) is not None); note.label('escapes', b'%' in sp)
            elif n.rstrip(b'/') in content and n.endswith(b'/'): expect(r.status != 200, 'a file is served as directory')
            else: same(r.status, 404, 'status of the missing ' + short(n)); note.nt = True; note.label('missing')
        if conn: conn.close()
    s.died()
def gen_long(d):
    # the whole path of the file ends around the limit of 1024 bytes
    root = d.bool(0.3)
    return [root, d.choice([d.int(1015, 1030), d.int(1020, 1026), d.int(300, 1023), 1023, 1024]) if not root else d.choice([d.int(300, 980), d.int(900, 980)]), d.int(0, 999), [[d.choice(['file', 'file', 'dir', 'dir/', 'prefix']), d.int(0, 3), d.bool(0.5)] for _ in range(d.int(2, 5))]]
def long_path(root, total, seed):
    """folders below the root that end in a name so that the whole path has the given length"""
    r = random.Random(seed); left = total - len(root); out = []
    while left > 0:
        k = min(left - 1, r.choice([255, 200, 60, 17])) if left > 300 else left - 1 if left - 1 <= 255 else left // 2
        if 0 < left - 1 - k < 2: k -= 2
        out.append(bytes(r.choice(b'abcxyz0123456789 %+~') if i else 97 + len(out) for i in range(k))); left -= k + 1
    return out
def run_long(env, case, note):
    root, total, seed, reqs = case
    s = W.server(env)
    with W.Tree(s) as t:
        s.configure('[location:l]\npath=^/long\nhandler=file\nbase_path=%s\n' % t.path.decode())
        prefix = b'/' + t.rel + b'/' if root else b'/long/'
        segs = long_path(t.path, total, seed); p = os.path.join(t.path, *segs); os.makedirs(p)
        same(len(p), total, 'length of the path (check)')
        short_name = segs[-1][:-1]; q = os.path.join(os.path.dirname(p), short_name)
        if short_name: W.put(q, b'WRONG')
        os.rmdir(p); data = blob(seed, 5000); W.put(p, data); c = None
        for kind, k, keep in reqs:
            is_dir = kind in ('dir', 'dir/')
            if is_dir and os.path.isfile(p): os.unlink(p); os.mkdir(p); os.utime(p, (1000000000, 1000000000))
            if not is_dir and os.path.isdir(p): os.rmdir(p); W.put(p, data)
            names = segs if kind != 'prefix' else segs[:-1] + [short_name]
            sp = b'/'.join(b''.join(b'%%%02x' % x if x not in W.SAFE or x in b'%+' or k == 3 and i % 3 == 0 else bytes([x]) for i, x in enumerate(n)) for n in names)
            target = prefix + sp + (b'/' if kind == 'dir/' else b'')
            if len(target) > 3900 or not names[-1]: continue
            if c is None: c = s.connect()
            c.send(S.request(target, keep=keep)); r = c.response()
            if not keep: c.expect_close(); c.close(); c = None
            n = total + (kind == 'dir/') - (kind == 'prefix')
            what = 'the %s with a path of %d bytes' % (kind, n)
            if n >= 1024: expect(r.status >= 400, 'status %d of %s', r.status, what)
            elif kind == 'file': check_ok(r, names[-1], data)
            elif kind == 'prefix': same((r.status, r.body), (200, b'WRONG'), 'response to ' + what)
            elif kind == 'dir': same((r.status, r.header(b'Location')), (307, target + b'/'), 'response to ' + what)
            else: same(r.status, 200, 'status of ' + what); expect(b'<b>' in r.body or b'listing' in r.body.lower(), 'no listing for %s', what)
            note.label(kind + (' too long' if n >= 1024 else '')); note.nt = True
        if c: c.close()
    s.died()
def gen_big(d):
    return [[d.int(0, 2 ** 16), d.choice([262143, 262144, 262145, 524287, 524288, 524289, 786432, 1048576, 1048577]) if d.bool(0.5) else d.int(1, 3000000)],
            d.weighted([(2, None), (2, 4096), (1, 65536)]), d.weighted([(2, 0), (3, 5), (1, 40)]), d.choice([1 << 18, 1 << 16, 10000, 1 << 20]), d.int(0, 6), d.int(1, 3)]
def run_big(env, case, note):
    b, rcv, first, step, pauses, count = case
    s = W.server(env); data = blob(*b)
    with W.Tree(s) as t:
        W.put(t.path + b'/f.bin', data)
        c = s.connect(rcvbuf=rcv)
        try:
            c.send(S.request(b'/' + t.rel + b'/f.bin', keep=True) * (count - 1) + S.request(b'/' + t.rel + b'/f.bin', keep=False))
            if first: time.sleep(first / 1000.0)
            k = 0
            while not c.eof and len(c.buf) < len(data) * count:
                if not c.fill(): break
                k += 1
                if k <= pauses: time.sleep(0.002)
            for _ in range(count):
                r = c.response(); check_ok(r, b'f.bin', data)
            c.expect_close()
        finally: c.close()
    note.nt = True; note.label('slow', first > 0); note.label('repeated', count > 1)
    s.died()
def gen_changing(d):
    return [[d.int(0, 2 ** 16), d.int(1500000, 6000000)], d.int(0, 2 ** 16), d.choice(['truncate', 'truncate', 'empty', 'grow', 'overwrite', 'unlink', 'rename', 'touch']), d.size(1400000, small=300000), d.int(0, 999), d.bool(0.7), d.bool(0.4), d.choice([4096, 4096, 16384])]
def run_changing(env, case, note):
    """the file changes while a slow client receives it: the response keeps the length that it announced, or
    the connection ends with it; every byte is one that the file had at its position"""
    b, seed, kind, early, cut, keep, pipe, rcv = case; cut = cut * b[1] // 1000; pipe = pipe and keep
    s = W.server(env); old = blob(*b); new = blob(seed ^ 0x5a5a, b[1])
    with W.Tree(s) as t:
        p = t.path + b'/f.bin'; W.put(p, old); W.put(t.path + b'/g.txt', b'second')
        c = s.connect(rcvbuf=rcv)
        try:
            second = S.request(b'/' + t.rel + b'/g.txt', keep=False)
            c.send(S.request(b'/' + t.rel + b'/f.bin', keep=keep) + (second if pipe else b''))
            while not c.eof and len(c.buf) < early + 1000:
                if not c.fill(): break
            if kind == 'truncate': os.truncate(p, cut)
            elif kind == 'empty': os.truncate(p, 0)
            elif kind == 'grow':
                with open(p, 'ab') as f: f.write(blob(seed, 1 + seed * 5))
            elif kind == 'overwrite':
                with open(p, 'r+b') as f: f.write(new)
            elif kind == 'unlink': os.unlink(p)
            elif kind == 'rename':
                W.put(p + b'.n', new[:cut]); os.rename(p + b'.n', p)
            else: os.utime(p, (1, 1))
            pos = c.buf.find(b'\r\n\r\n'); expect(pos > 0, 'no head within the first %d bytes', len(c.buf))
            head = c.buf[:pos].lower(); expect(head.startswith(b'http/1.1 200'), 'status line %r', head[:40])
            expect(b'\r\ncontent-length: %d' % b[1] in head, 'no Content-Length of %d in %r', b[1], head[:300])
            whole = pos + 4 + b[1]
            def check_bytes(body):
                # a read that meets the truncation may see the end of the page as zeros already
                if body == old[:len(body)]: return
                other = new if kind == 'overwrite' else bytes(b[1]); low = cut if kind == 'truncate' else 0
                expect(kind in ('overwrite', 'truncate', 'empty'), 'the body has other bytes than the file before: %s', kind)
                i = next((i for i in range(len(body)) if body[i] != old[i] and (i < low or body[i] != other[i])), -1)
                expect(i < 0, 'byte %d of the body was never in the file at its position', i); note.label('mixed')
            while not c.eof and len(c.buf) < whole:
                if not c.fill(): break
            body = c.buf[pos + 4:whole]
            if len(body) < b[1]:
                expect(c.eof, 'the body stops after %d of %d bytes and the connection stays open', len(body), b[1])
                expect(kind in ('truncate', 'empty'), 'the body has %d of %d bytes after: %s', len(body), b[1], kind)
                least = cut if kind == 'truncate' else 0
                expect(len(body) >= max(least, early), 'the body has %d bytes, the file never had less than %d', len(body), least)
                check_bytes(body)
                note.label('short')
            else:
                check_bytes(body)
                c.buf = c.buf[whole:]
                if keep:
                    if not pipe: c.send(second)
                    r = c.response(); check_ok(r, b'g.txt', b'second')
                c.expect_close(); note.label('complete')
            r = s.get(b'/' + t.rel + b'/f.bin')
            if kind == 'unlink': same(r.status, 404, 'status of the removed file')
            else:
                with open(p, 'rb') as f: check_ok(r, b'f.bin', f.read())
        finally: c.close()
    note.nt = True; note.label(kind)
    s.died()
CHECKS = [Check('long paths', gen_long, run_long, 800, files=FILES), Check('files', gen_small, run, 16000, files=FILES), Check('large', gen_big, run_big, 500, thorough=5000, files=FILES), Check('changing', gen_changing, run_changing, 240, thorough=4000, files=FILES)]
