import os, subprocess
from .common import *
RULE = 'at least two threads or two inserting threads, and at least four tasks'
TSAN = True
FILES = ('viriatum_commons/thread/*.c',)
ASSUMPTIONS = ['schedules are the ones the operating system produces under the generated pauses; data races on any of them are seen by ThreadSanitizer whether or not they do harm']
def gen(d):
    threads = d.weighted([(3, 1), (2, 2), (1, 0)]) or d.int(3, 16)
    ni = d.weighted([(3, 1), (2, 2), (1, 5)])
    ins = []; free = list(range(256))
    for _ in range(ni):
        l = []
        for _ in range(d.size(40, small=8)):
            if len(free) < 3: break
            tid = free.pop(0)
            nested = free.pop(0) if d.bool(0.15) else None
            l.append([tid, d.weighted([(6, 0), (1, 1), (1, 2), (1, 3), (1, 4)]), d.weighted([(6, 0), (1, 1), (1, 2), (1, 3)]), nested])
        ins.append(l)
    return [threads, ins]
def run(env, case, note):
    threads, ins = case
    text = '%d %d\n' % (threads, len(ins))
    for l in ins: text += '%d ' % len(l) + ' '.join('%d %d %d %d' % (t, w, k, 0 if n is None else n + 1) for t, w, k, n in l) + '\n'
    e = dict(os.environ, TSAN_OPTIONS='halt_on_error=1:atexit_sleep_ms=0:exitcode=66:report_thread_leaks=0:report_destroy_locked=0')
    p = subprocess.Popen([os.path.join(env.bin, 'tworker')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=env.tmp)
    try: out, err = p.communicate(text.encode(), timeout=60)
    except subprocess.TimeoutExpired: p.kill(); p.communicate(); raise Fail('the thread pool does not terminate (60 s)')
    note.nt = (threads > 1 or len(ins) > 1) and sum(len(l) for l in ins) >= 4
    note.label('one thread', threads == 1); note.label('nested', any(t[3] is not None for l in ins for t in l)); note.label('inserters', len(ins) > 1)
    if p.returncode == 3: raise RuntimeError('harness')
    if p.returncode: raise Fail('the process failed (status %s): %s' % (p.returncode, err.decode('utf-8', 'replace')[:900]))
    got = out.decode().split(); end = got.pop(); got = [int(x) for x in got]
    want = [t for l in ins for t, _, _, _ in l] + [n for l in ins for _, _, _, n in l if n is not None]
    missing = sorted(set(want) - set(got))
    if end != 'END' or missing: raise Fail('tasks %s never ran' % missing[:10])
    if sorted(got) != sorted(want): raise Fail('tasks ran more than once: %s' % sorted(x for x in set(got) if got.count(x) > 1)[:10])
    if threads == 1:
        for l in ins:
            ids = [t for t, _, _, _ in l]
            if [x for x in got if x in set(ids)] != ids: raise Fail('tasks of one inserter ran in the order %s instead of %s' % ([x for x in got if x in set(ids)], ids))
CHECKS = [Check('histories', gen, run, 3600, files=FILES)]
