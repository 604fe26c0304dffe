#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool, not a check).

mutate.py OUT.jsonl N SEED [FILE...]: draws N single-line mutants of the C sources in a scratch copy of /repo, drops the
ones that compile to the same code, runs the quick checks of the properties anchored there and, for those that survive, the
existing tests. The survivors are read by hand: each is equivalent, out of every property, or a gap in a check."""
import json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAG = os.environ.get('MUT_TAG', '')
COPY, BUILD, CACHE = '/tmp/mutant' + TAG, '/tmp/mutant-build' + TAG, '/tmp/mutant-cache' + TAG
MAP = {'viriatum/http/http_parser.c': 'P02 P03 P01 P04', 'viriatum/http/http_util.c': 'P32 P10 P07 P08 P05 P09 P13 P12 P04', 'viriatum/handlers/handler_file.c': 'P05 P07 P08 P09 P10 P06 P11 P04',
    'viriatum/handlers/handler_dispatch.c': 'P12 P10 P06 P14 P11 P04', 'viriatum/handlers/handler_proxy.c': 'P13 P04', 'viriatum/handlers/handler_default.c': 'P12 P14 P04 P11',
    'viriatum/system/service.c': 'P14 P05 P12 P13 P11 P35 P04', 'viriatum/stream/stream_http.c': 'P05 P11 P04 P35', 'viriatum/stream/stream_io.c': 'P05 P11 P35 P04 P13', 'viriatum/polling/polling_epoll.c': 'P05 P11 P35 P13 P04',
    'viriatum/viriatum.c': 'P14', 'viriatum_commons/checksum/crc_32.c': 'P29', 'viriatum_commons/checksum/md5.c': 'P29', 'viriatum_commons/checksum/sha1.c': 'P29', 'viriatum_commons/crypto/rc4.c': 'P30',
    'viriatum_commons/sorting/quicksort.c': 'P22', 'viriatum_commons/structures/array_list.c': 'P19', 'viriatum_commons/structures/linked_list.c': 'P19 P22 P20', 'viriatum_commons/structures/priority_queue.c': 'P20',
    'viriatum_commons/structures/hash_map.c': 'P17 P18', 'viriatum_commons/structures/sort_map.c': 'P18 P25', 'viriatum_commons/structures/string_buffer.c': 'P21 P15', 'viriatum_commons/structures/linked_buffer.c': 'P21',
    'viriatum_commons/structures/type.c': 'P25 P15', 'viriatum_commons/encoding/percent.c': 'P24 P32 P06', 'viriatum_commons/encoding/base_64.c': 'P23 P10', 'viriatum_commons/encoding/bencoding.c': 'P25', 'viriatum_commons/formats/passwd.c': 'P38 P10',
    'viriatum_commons/formats/url.c': 'P31', 'viriatum_commons/stream/file_stream.c': 'P28', 'viriatum_commons/stream/memory_stream.c': 'P28', 'viriatum_commons/stream/bit_stream.c': 'P27 P26', 'viriatum_commons/compression/huffman.c': 'P26',
    'viriatum_commons/thread/thread_pool.c': 'P33', 'viriatum_commons/ini/ini.c': 'P14', 'viriatum_commons/util/arguments_util.c': 'P14', 'viriatum_commons/template/engine.c': 'P15', 'viriatum_commons/template/handler.c': 'P15 P09',
    'viriatum_commons/io/file.c': 'P37 P09 P05', 'viriatum_commons/util/string_util.h': 'P39'}
RULES = [(r'(?<![<\->=!])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![\->=])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '),
    (r'\+\+', '--'), (r'\+=', '='), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b(\d{2,})\b', lambda m: str(int(m.group(1)) - 1)), (r'\b(\d{2,})\b', lambda m: str(int(m.group(1)) + 1)), (r'\bif\((.*)\) \{', r'if(!(\1)) {'), (r'\bif\((.*)\) \{', r'if(0) {'),
    (r'^(\s+)(?!return|break|continue|case|default|goto|\w+ \w+;|\w+ \w+ = |struct|unsigned|char|size_t|const|\}).*;\s*$', r'\1;'), (r'^(\s+)break;\s*$', r'\1;'), (r'\bsize_t\b', 'unsigned char'), (r'\bunsigned long long\b', 'unsigned int'), (r'\bsize_t\b', 'unsigned short')]
def mutants(rel):
    text = open(os.path.join(COPY, 'src', rel), 'rb').read().decode('utf-8', 'replace').split('\n')
    comment = False
    for i, line in enumerate(text):
        l = line.strip()
        if comment or l.startswith('/*'):
            comment = '*/' not in l; continue
        if not l or l.startswith(('//', '#', 'V_DEBUG', 'V_INFO', 'V_WARN', 'V_ERROR', 'V_MESSAGE')): continue
        for k, (pat, rep) in enumerate(RULES):
            for m in re.finditer(pat, line.rstrip('\r')):
                new = line[:m.start()] + m.expand(rep) + line[m.end():] if isinstance(rep, str) else line[:m.start()] + rep(m) + line[m.end():]
                if new.strip() != line.strip(): yield i, k, line, new
def sh(cmd, t=900, **k):
    try: r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k); return r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired: return 99, 'timeout'
def code(rel):
    inc = 'viriatum_commons' if rel.startswith('viriatum_commons') else 'viriatum'
    src = rel if rel.endswith('.c') else '/tmp/mutant-h' + TAG + '.c'
    if not rel.endswith('.c'): open(src, 'w').write('#include "viriatum_commons/viriatum_commons.h"\n')
    r, o = sh('clang -O2 -w -DHAVE_CONFIG_H -I%s/harness -I%s -I. -S -emit-llvm -o - %s | md5sum; exit ${PIPESTATUS[0]}' % (HERE, inc, src), cwd=COPY + '/src', executable='/bin/bash')
    return r, o
def main():
    out, n, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:] or sorted(MAP)
    if not os.path.exists(COPY): shutil.copytree('/repo', COPY, symlinks=True)
    os.makedirs(CACHE, exist_ok=True)
    env = dict(os.environ, VERIF_REPO=COPY, VERIF_BUILD=BUILD, VERIF_OBJCACHE=CACHE, VERIF_SHRINK='0')
    rnd = random.Random(seed)
    for rel in files:
        path = os.path.join(COPY, 'src', rel); orig = open(path, 'rb').read()
        base = code(rel)[1]
        all_ = list(mutants(rel)); rnd.shuffle(all_)
        done = 0
        for i, k, old, new in all_:
            if done >= n: break
            lines = orig.decode('utf-8', 'replace').split('\n'); lines[i] = new
            data = '\n'.join(lines).encode()
            t0 = time.time(); rec = {'file': rel, 'line': i + 1, 'old': old.strip(), 'new': new.strip()}
            try:
                open(path, 'wb').write(data)
                r, c = code(rel)
                if r or (rel.endswith('.c') and c == base): continue
                done += 1
                for p in MAP[rel].split():
                    r, o = sh('python3 run.py %s --tier quick' % p, env=env, cwd=HERE)
                    if r:
                        rec['by'] = p if r == 1 else '%s rc=%d %s' % (p, r, o[-300:]); break
                else:
                    # the build and the tests of the repository, with the copy in the place of /repo
                    r, o = sh("unshare -m bash -c 'mount --bind %s /repo && bash /tmp/t.sh'" % COPY)
                    rec['by'] = 'tests' if '21 []' not in o else None
            finally: open(path, 'wb').write(orig)
            rec['t'] = round(time.time() - t0, 1)
            open(out, 'a').write(json.dumps(rec) + '\n')
main()
