from .common import *
import os
RULE = 'documents: at least two sections and a repeated or spaced entry; arguments: at least two recognised ones; options: a key set in more than one place'
FILES = ('viriatum_commons/ini/*', 'viriatum_commons/util/arguments_util.*')
NAMEC = 'abcXYZ01_-.:/ \\$[;#"\xe9\x01\t'
VALC = 'abcXYZ01_-.:/ =[];#"\'\\$^()*\xe9\xff\t'
def name(d, alpha, lim):
    t = d.text(alpha, lim, 1, small=8)
    return t
def gen_ini(d):
    out = []
    secs = []
    for _ in range(d.size(40, small=8)):
        k = d.weighted([(6, 'key'), (2, 'sec'), (1, 'com'), (1, 'blank')])
        nl = d.weighted([(4, '\n'), (2, '\r\n'), (1, '\r')])
        if k == 'sec':
            s = d.choice(secs) if secs and d.bool(0.3) else name(d, NAMEC, 1100 if d.bool(0.05) else 40)
            secs.append(s); out.append(['sec', s, nl])
        elif k == 'com': out.append(['com', d.text(VALC, 80), nl])
        elif k == 'blank': out.append(['blank', '', nl])
        else:
            key = d.choice(['port', 'path', 'a', 'handler']) if d.bool(0.5) else name(d, 'abcXYZ01_-.: /\\$]"\xe9', 1100 if d.bool(0.05) else 30)
            key = key.rstrip(' ')
            if not key or key[0] in '[;\r\n': key = 'k' + key
            val = d.text(VALC, 2000 if d.bool(0.05) else 40)
            out.append(['key', key, ' ' * d.weighted([(3, 1), (3, 0), (1, 4)]), ' ' * d.weighted([(3, 1), (3, 0), (1, 4)]), val.lstrip(' '), nl])
    return [out, d.bool(0.5)]
def gen_large(d):
    # many sections and keys, or long values
    out = []
    if d.bool(0.5):
        for i in range(wide(d, 2000)): out.append(['sec', 's%d' % (i % 700), '\n'] if i % 5 == 0 else ['key', 'k%d' % i, ' ', ' ', 'v%d' % i, '\n'])
    else:
        for i in range(d.int(1, 4)): out.append(['key', 'k%d' % i, '', ' ', 'x' * d.int(0, 3) + ''.join(chr(97 + c % 26) for c in wide_bytes(d)), d.choice(['\n', '\r\n'])])
    return [out, d.bool(0.5)]
def ini_text(out, final):
    t = ''
    for l in out:
        if l[0] == 'sec': t += '[' + l[1] + ']' + l[2]
        elif l[0] == 'com': t += ';' + l[1] + l[2]
        elif l[0] == 'blank': t += l[2]
        else: t += l[1] + l[2] + '=' + l[3] + l[4] + l[5]
    if not final: t = t.rstrip('\r\n')
    return t.encode('latin-1')
def ini_model(out):
    """None when a name is too long"""
    m = {}; sec = ''
    for l in out:
        if l[0] == 'sec':
            if len(l[1]) >= 1024: return None
            sec = l[1]
        elif l[0] == 'key':
            if len(l[1]) >= 1024: return None
            m.setdefault(sec, {})[l[1]] = l[4]
    return m
def hx(s): return 'x' + s.encode('latin-1').hex()
def run_ini(env, case, note):
    out, final = case
    t = ini_text(out, final); m = ini_model(out)
    r = env.w.call('ini', t)
    if m is None: same(r[0], b'1', 'status for a name that is too long'); return
    same(r[0], b'0', 'status for %s' % short(t))
    want = []
    for s, kv in m.items():
        want.append('S ' + hx(s))
        for k, v in kv.items(): want.append('K %s %s' % (hx(k), hx(v)))
    got = r[1].decode('latin-1').split('\n')[:-1]
    if got != want: raise Fail('entries of %s: got %s, expected %s' % (short(t, 500), short(got, 600), short(want, 600)))
    nk = sum(l[0] == 'key' for l in out)
    note.nt = len(m) >= 2 and nk >= 3
    note.label('repeated key', nk > sum(len(x) for x in m.values()))
def gen_mut(d):
    t = bytearray(ini_text(*gen_ini(d)))
    for _ in range(d.int(1, 4)):
        i = d.int(0, len(t)); k = d.weighted([(2, 'cut'), (2, 'ins'), (2, 'del'), (1, 'set')])
        if k == 'cut': del t[i:]
        elif k == 'ins': t[i:i] = d.choice([b'[', b']', b'=', b';', b'\n', b'\r', b' ', b'\0', b'x' * d.size(2100)])
        elif k == 'del': del t[i:i + d.int(1, 5)]
        elif i < len(t): t[i] = d.choice([0, 255, 10, 13, 32, 61, 91, 93, 59])
    return bytes(t)
def run_mut(env, case, note):
    env.w.call('ini', case)
    note.nt = len(case) > 5
K = ['port', 'host', 'a', 's', 'ip6', 'long-key', 'k_1']
def gen_args(d):
    out = []
    for _ in range(d.size(30, small=6)):
        k = d.weighted([(4, 'kv'), (2, 'k'), (2, 's'), (1, 'skv'), (1, 'junk')])
        key = d.choice(K) if d.bool(0.7) else d.text('abcXYZ01_.:-', 300, 1)
        if key.startswith('-') and k in ('s', 'skv'): key = 'x' + key
        val = d.text('abcXYZ01=-./: \xe9', 1100 if d.bool(0.1) else 20)
        out.append({'kv': '--%s=%s' % (key, val), 'k': '--' + key, 's': '-' + key, 'skv': '-%s=%s' % (key, val), 'junk': d.choice(['', 'x', 'a=b', '-', '--', '--=v', '=', 'port=1', '/x'])}[k])
    return out
def args_model(argv):
    m = {}
    for a in argv:
        if not a.startswith('-'): continue
        b = a[2:] if a.startswith('--') else a[1:]
        k, eq, v = b.partition('=')
        # "-=..." is a name made of the equals sign: not a form that is documented
        if not a.startswith('--') and b.startswith('='): k, eq, v = None, '', ''
        if k is None: continue
        if not k or len(k) >= 256 or len(v) >= 1024: continue
        m[k] = v if eq else None
    return m
def run_args(env, case, note):
    if any(a.startswith('-=') for a in case): return
    r = env.w.call('args', b''.join(lb(a.encode('latin-1')) for a in ['viriatum'] + case))
    m = args_model(case)
    want = sorted('%s %s %s' % (hx(k), 's' if v is None else 'v', hx(v or '')) for k, v in m.items()) + ['%d' % len(m)]
    got = r[0].decode().split('\n')[:-1]
    got = sorted(got[:-1]) + got[-1:]
    same(got, want, 'arguments of %s' % short(case))
    note.nt = len(m) >= 2
BOOL = ['1', 'On', 'True', '0', 'Off', 'False', 'true', 'on', '', 'yes', '11']
def gen_opts(d):
    g = {}
    for k in ('port', 'host', 'ip6', 'ip6_host', 'ssl', 'ssl_csr', 'ssl_key', 'handler', 'local', 'workers', 'use_template', 'index'):
        if not d.bool(0.45): continue
        if k == 'port': v = str(d.magic_int(0, 65535))
        elif k == 'workers': v = str(d.int(0, 255))
        elif k in ('ip6', 'ssl', 'local', 'use_template'): v = d.choice(BOOL)
        elif k == 'index': v = ' '.join(d.text('abc.html01', 127 if d.bool(0.1) else 12, 1) for _ in range(d.size(32, 1, small=4)))
        else: v = d.text('abc./:01[]', 30, 1)
        g[k] = v
    locs = [[d.text('abc01/^', 12, 1), d.text('^/abc.*$', 20, 1) if d.bool(0.9) else None, d.choice(['file', 'proxy', 'default', 'nothing']) if d.bool(0.9) else None] for _ in range(d.size(30, small=4))]
    ini = {'general': g, 'locations': locs, 'order': d.bool()} if d.bool(0.9) else None
    argv = []
    for _ in range(d.size(8, small=4)):
        k = d.choice(['port', 'host', 'ip6', 'handler', 'local', 'ssl', 'workers', 'other'])
        if k in ('ip6', 'local', 'ssl'): argv.append('--' + k + d.choice(['', '', '=1']))
        elif k == 'port': argv.append('--port=%d' % d.magic_int(0, 65535))
        elif k == 'workers': argv.append('--workers=%d' % d.int(0, 255))
        else: argv.append('--%s=%s' % (k, d.text('abc.01', 20, 1)))
    exts = [d.choice(['.html', '.HTML', '.Png', '.css', '.tar', '.gz', '.unknown', '.', 'html', '', '.jpe', '.JPG', '.js', '.json', '.c', '.H', '.cdf', '.txt', '.TXTX', '.' + 'a' * 1030]) for _ in range(3)]
    return [ini, argv, exts]
MIME = None
def mime():
    global MIME
    if MIME is None:
        import json
        MIME = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mime.json')))
    return MIME
def run_opts(env, case, note):
    ini, argv, exts = case
    t = b''
    if ini:
        gt = '[general]\n' + ''.join('%s = %s\n' % kv for kv in ini['general'].items())
        lt = ''
        for i, (n, p, h) in enumerate(ini['locations']):
            lt += '[location:%s]\n' % n + ('path = %s\n' % p if p is not None else '') + ('handler = %s\n' % h if h is not None else '') + 'base_path = /x%d\n' % i
        t = (gt + lt if ini['order'] else lt + gt).encode('latin-1')
    r = env.w.call('opts', 1 if ini else 0, t, b''.join(lb(a.encode('latin-1')) for a in ['viriatum'] + argv), b''.join(lb(a.encode('latin-1')) for a in exts))
    g = ini['general'] if ini else {}; a = args_model(argv)
    tr = lambda k: 1 if g.get(k) in ('1', 'On', 'True') else 0
    port = int(a.get('port') or g.get('port') or 9090)
    idx = g['index'].split(' ') if 'index' in g else []
    want = ['status 0', 'port %d' % port, '_port ' + hx(str(port)), 'host ' + hx(a.get('host') or g.get('host') or '0.0.0.0'), 'ip6 %d' % (1 if 'ip6' in a else tr('ip6')), 'ip6_host ' + hx(g.get('ip6_host', '[::]')),
            'ssl %d' % (1 if 'ssl' in a else tr('ssl'))] + ['%s %s' % (k, hx(g[k]) if k in g else '-') for k in ('ssl_csr', 'ssl_key')] + ['handler ' + hx(a.get('handler') or g.get('handler') or 'dispatch'),
            'local %d' % (1 if 'local' in a else tr('local')), 'workers %d' % int(a.get('workers') or g.get('workers') or 0), 'use_template %d' % tr('use_template'), 'index_count %d' % len(idx)]
    want += ['index ' + hx(x) for x in idx]
    locs = {}
    for n, p, h in (ini['locations'] if ini else []):
        e = locs.setdefault(n, {})
        if p is not None: e['p'] = p
        if h is not None: e['h'] = h
    for n, e in locs.items():
        if 'p' in e and 'h' in e: want += ['location ' + hx(n), 'path ' + hx(e['p']), 'lhandler ' + hx(e['h'])]
    want += ['mime ' + (hx(mime()[x.lower()]) if x.lower() in mime() else '-') for x in exts]
    got = r[0].decode('latin-1').split('\n')[:-1]
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Fail('options of %s with %s: %s, expected %s' % (short(t, 400), argv, short(got[i:i + 2]), short(want[i:i + 2])))
    note.nt = any(k in a for k in g); note.label('no file', ini is None); note.label('locations', len(locs) > 1)
CHECKS = [Check('large documents', gen_large, run_ini, 240, files=FILES), Check('documents', gen_ini, run_ini, 24000, files=FILES), Check('mutated', gen_mut, run_mut, 12000, files=FILES), Check('arguments', gen_args, run_args, 24000, files=FILES), Check('options', gen_opts, run_opts, 12000, files=FILES)]
