from .common import *
import struct
RULE = 'a template with at least three tags of which one contains other nodes, or at least one malformed tag'
FILES = ('viriatum_commons/template/*', 'viriatum_commons/structures/string_buffer.*')
NAMES = ['a', 'b', 'cc', 'entries', 'v1', 'long_name_of_a_variable_with_many_characters_0123456789']
KEYS = ['name', 'type', 'x', 'list', 'sub']
TXT = ['a', 'b', ' ', '\n', '$', '{', '}', '/', '"', '=', '$$', '<td>', '\r\n', '\xe9', '\xff', '}}', '/}', 'out', '%s', '%d']
def value(d, depth):
    k = d.weighted([(4, 'i'), (4, 's'), (2, 'l' if depth < 3 else 'i'), (2, 'm' if depth < 3 else 's'), (1, 'f')])
    if k == 'i': return ['i', d.choice([0, 1, 2, 3, -1, 2147483647, -2147483648]) if d.bool(0.8) else d.int(-2 ** 31, 2 ** 31 - 1)]
    if k == 'f': return ['f', d.int(-10 ** 6, 10 ** 6)]
    if k == 's': return ['s', d.text(TXT + ['${out value=a /}', '${'], 60, small=5)]
    if k == 'l': return ['l', [value(d, depth + 1) for _ in range(d.size(12, small=3))]]
    ks = [x for x in KEYS if d.bool(0.7)]
    return ['m', [[x, value(d, depth + 1)] for x in ks]]
def ref(d, scope):
    r = d.choice(scope + NAMES[:4]) if d.bool(0.7) and scope else d.choice(NAMES)
    for _ in range(d.weighted([(4, 0), (4, 1), (1, 2)])): r += '.' + d.choice(KEYS)
    return r if len(r) < 64 else r[:20].rstrip('.')
def sp(d): return ' ' * d.weighted([(8, 1), (1, 2), (1, 5)])
def text_node(d):
    n = d.size(6, 1, small=4)
    t = ''.join(d.choice(TXT) for _ in range(n))
    if d.bool(0.05): t += 'x' * d.size(9000)
    return ['text', t]
def node(d, depth, scope):
    k = d.weighted([(4, 'text'), (4, 'out'), (2, 'for' if depth < 4 else 'out'), (2, 'if' if depth < 4 else 'out'), (1, 'odd')])
    if k == 'text': return text_node(d)
    if k == 'out':
        w = d.weighted([(5, 'r'), (2, 's'), (1, 'i')])
        if w == 'r': v = ref(d, scope)
        elif w == 's': v = '"' + d.text([c for c in TXT if '"' not in c] + ['${', '/}', ' '], 40, small=4)[:120] + '"'
        else: v = str(d.magic_int(0, 2 ** 31 - 1))
        # spelling: separate or joined end, other parameters around, or an open and close pair
        return ['out', v, d.weighted([(5, ' /}'), (2, '/}'), (1, '  /}'), (1, '}'), (1, ' }')]), d.weighted([(6, ''), (1, 'x=1 '), (1, 'other=a.b ')]), sp(d), [text_node(d)] if d.bool(0.3) else []]
    if k == 'for':
        item = 'i%d' % depth
        return ['for', item, ref(d, scope), d.bool(0.5), nodes(d, depth + 1, scope + [item]), sp(d)]
    if k == 'if':
        return ['if', ref(d, scope), d.weighted([(4, 1), (3, 0), (2, 2), (1, 3)]), d.int(0, 3), nodes(d, depth + 1, scope), sp(d)]
    return ['odd', d.choice(['${foo a=1 /}', '${foo/}', '${foo}', '${out /}', '${foreach item=q /}', '${foreach from=a /}', '${if value=1 /}', '${if item=a /}', '${foreach item=q from="s" /}', '${out x=a /}', '${bar a="x y" b=c /}', '${if item=a value="1" operator=eq /}', '${/}', '${out/}', '${if/}'])]
def nodes(d, depth, scope):
    return [node(d, depth, scope) for _ in range(d.size(7, small=3))]
def gen(d):
    vs = [[n, value(d, 0)] for n in NAMES if d.bool(0.7)]
    return [vs, nodes(d, 0, [])]
def look(env, r):
    p = r.split('.')
    v = env.get(p[0])
    for k in p[1:]:
        if v is None or v[0] != 'm': return None
        v = dict((a, b) for a, b in v[1]).get(k)
    return v
def show(v):
    if v is None: return ''
    if v[0] == 'i': return '%d' % v[1]
    if v[0] == 's': return v[1]
    if v[0] == 'f': return '%f' % v[1]
    return 'undefined'
def render(ns, env):
    out = ''
    for n in ns:
        if n[0] == 'text': out += n[1]
        elif n[0] == 'out':
            v = n[1]
            out += v[1:-1] if v[0] == '"' else v if v[0].isdigit() else show(look(env, v))
        elif n[0] == 'for':
            v = look(env, n[2])
            if v is not None and v[0] == 'l':
                for x in v[1]:
                    e = dict(env); e[n[1]] = x
                    out += render(n[4], e)
        elif n[0] == 'if':
            v = look(env, n[1])
            if v is not None and v[0] == 'i' and v[1] == n[2]: out += render(n[4], env)
    return out
def encv(v):
    k = v[0].encode()
    if k == b'i': return k + struct.pack('<i', v[1])
    if k == b'f': return k + struct.pack('<f', float(v[1]))
    if k == b's': return k + lb(v[1].encode('latin-1'))
    if k == b'l': return k + u32(len(v[1])) + b''.join(encv(x) for x in v[1])
    return k + u32(len(v[1])) + b''.join(lb(a.encode()) + encv(b) for a, b in v[1])
def canon(ns):
    """texts as they are after serialisation: drop the characters that would start a tag"""
    out = []; last = ''
    for n in ns:
        n = list(n)
        if n[0] == 'text':
            t = n[1]
            while '${' in last + t:
                i = (last + t).index('${') - len(last)
                # the dollar is dropped here when it belongs to this text, otherwise the brace is
                t = t[:i] + t[i + 1:] if i >= 0 else t[1:]
            n[1] = t
            if t: last = t[-1]
        else:
            last = ''
            if n[0] in ('for', 'if'): n[4] = canon(n[4])
            elif n[0] == 'out': n[5] = canon(n[5])
        out.append(n)
    return out
def plain(ns):
    out = ''
    for n in ns:
        if n[0] == 'text': out += n[1]
        elif n[0] == 'out':
            _, v, end, other, s, body = n
            out += '${out' + s + other + 'value=' + v + end
            if end.strip() == '}': out += plain(body) + '${/out}'
        elif n[0] == 'for':
            a, b = 'item=' + n[1], 'from=' + n[2]
            if n[3]: a, b = b, a
            out += '${foreach' + n[5] + a + ' ' + b + '}' + plain(n[4]) + '${/foreach}'
        elif n[0] == 'if':
            ps = ['item=' + n[1], 'value=%d' % n[2], 'operator=eq']
            ps = ps[n[3] % 3:] + ps[:n[3] % 3]
            out += '${if' + n[5] + ' '.join(ps) + '}' + plain(n[4]) + '${/if}'
        else:
            out += n[1] + ('text${/foo}' if n[1] == '${foo}' else '')
    return out
def count(ns): return sum(0 if n[0] == 'text' else 1 + (count(n[4]) if n[0] in ('for', 'if') else 0) for n in ns)
def run(env, case, note):
    vs, ns = case; ns = canon(ns)
    t = plain(ns).encode('latin-1')
    r = env.w.call('tpl', t, b''.join(lb(n.encode()) + encv(v) for n, v in vs))
    want = render(ns, dict((n, v) for n, v in vs)).encode('latin-1')
    if r[0] != want: raise Fail('rendering of %s: got %s, expected %s' % (short(t, 600), short(r[0], 500), short(want, 500)))
    c = count(ns); note.nt = c >= 3 and any(n[0] in ('for', 'if') for n in ns)
    note.label('loop', any(n[0] == 'for' for n in ns)); note.label('condition', any(n[0] == 'if' for n in ns)); note.label('nested', any(n[0] in ('for', 'if') and any(m[0] in ('for', 'if') for m in n[4]) for n in ns))
def gen_mut(d):
    vs, ns = gen(d)
    t = bytearray(plain(canon(ns)).encode('latin-1'))
    for _ in range(d.int(1, 4)):
        k = d.weighted([(2, 'cut'), (3, 'del'), (3, 'ins'), (2, 'set')])
        i = d.int(0, len(t))
        if k == 'cut': del t[i:]
        elif k == 'del': del t[i:i + d.int(1, 6)]
        elif k == 'ins': t[i:i] = d.choice([b'${', b'}', b'${/if}', b'${/foreach}', b'/', b'"', b'=', b' ', b'${/', b'/}', b'$', b'${if item=a value=1}', b'${out value=', b'${foreach item=' + b'n' * d.size(300), b'${out value="' + b's' * d.size(300) + b'" /}', b'${' + b'p' * d.size(200) + b' ' + b'q' * d.size(200) + b'=1 /}'])
        elif i < len(t): t[i] = d.choice([0, 255, 36, 123, 125, 47, 34, 61, 32])
    return [vs, bytes(t)]
def run_mut(env, case, note):
    vs, t = case
    r = env.w.call('tpl', t, b''.join(lb(n.encode()) + encv(v) for n, v in vs))
    if b'${' not in t and b'\0' not in t: same(r[0], t, 'text without tags')
    # a template that renders twice gives the same output: nothing is left over from earlier renderings
    r2 = env.w.call('tpl', t, b''.join(lb(n.encode()) + encv(v) for n, v in vs))
    same(r2[0], r[0], 'second rendering of %s' % short(t, 400))
    note.nt = b'${' in t
def gen_large(d):
    # long lists and long texts
    n = wide(d, 1200)
    body = [['out', 'it', ' /}', '', ' ', []], ['text', d.choice(['\n', 'x', '<td>'])]]
    if d.bool(0.3): body.append(['if', 'it', 1, d.int(0, 5), [text_node(d)], ' '])
    vs = [['a', ['l', [['i', i % 7] if i % 2 else ['s', 's%d' % i] for i in range(n)]]], ['b', ['s', 'x' * wide(d, 70000)]]]
    ns = [['text', 'y' * wide(d, 70000)], ['for', 'it', 'a', d.bool(), body, ' '], ['out', 'b', ' /}', '', ' ', []], ['text', 'z' * wide(d, 9000)]]
    return [vs, ns if d.bool() else ns[::-1]]
CHECKS = [Check('large', gen_large, run, 160, files=FILES), Check('trees', gen, run, 24000, files=FILES), Check('mutated', gen_mut, run_mut, 12000, files=FILES)]
