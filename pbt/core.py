"""Runs the checks of one property: shards, budgets, shrinking, replay, evidence, known findings."""
import glob, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from . import build as B
from .engine import Draw, Fail, Invalid, rng_for, enc, dec, digest, shrink, MAGIC
from .worker import Worker, Crash

ROOT = B.ROOT
HISTORY = 300
NSHARDS = int(os.environ.get('VERIF_SHARDS', '8'))

class Check(object):
    """one generated check. gen(Draw) -> case, run(env, case, note); counts are cases over all shards"""
    def __init__(self, name, gen, run, quick, thorough=None, files=(), setup=None, min_shrink=None):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough, self.files = quick, thorough or quick * 12, files

class Note(object):
    def __init__(self): self.nt = False; self.labels = {}
    def label(self, name, cond=True):
        if cond: self.labels[name] = self.labels.get(name, 0) + 1

class Env(object):
    """what a case may use; everything lives in a scratch directory that is removed at the end"""
    def __init__(self, prop, tag):
        self.tmp = tempfile.mkdtemp(prefix='vpt-%s-%s-' % (prop, tag))
        # the code under test runs as an unprivileged user, which owns nothing but may write in here
        os.umask(0); os.chmod(self.tmp, 0o777)
        self.bin = os.environ['VERIF_BIN']
        self.tag = tag; self._w = None; self.closers = []; self.cache = {}
        # the configuration of the build and further arguments for all servers
        self.variant = os.environ.get('VERIF_VARIANT'); self.args = os.environ.get('VERIF_ARGS', '').split()
    @property
    def w(self):
        if self._w is None:
            self._w = Worker(os.path.join(self.bin, 'worker'), self.tmp)
        return self._w
    def close(self):
        for f in self.closers:
            try: f()
            except Exception: pass
        if self._w: self._w.stop()
        shutil.rmtree(self.tmp, ignore_errors=True)

def magic_for(files):
    """integer literals of the given sources: they only steer the sizes that are generated"""
    found = set()
    for f in files:
        for p in glob.glob(os.path.join(B.SRC, f)):
            try: text = open(p, encoding='latin-1').read()
            except OSError: continue
            text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
            for m in re.findall(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', text):
                try: v = int(m, 0) if m.lower().startswith('0x') else int(m)
                except ValueError: continue
                if 2 < v < 2 ** 31: found.add(v)
    extra = sorted(found)[:80]
    return sorted(set(MAGIC)) + extra * 2

def load(prop):
    return importlib.import_module('pbt.props.' + prop.lower())

def run_case(check, env, case):
    note = Note()
    check.run(env, case, note)
    return note

def is_hang(m): return 'does not terminate' in m or 'no answer within' in m

def shard_main(prop, shard, tier, seed, out):
    mod = load(prop)
    stop = out + '.stop'
    env = Env(prop, 's%d' % shard)
    cap = float(os.environ.get('VERIF_CAP', 55 if tier == 'quick' else 480))
    t0 = time.monotonic()
    res = {'evaluations': 0, 'nt': [], 'labels': {}, 'samples': [], 'failure': None, 'per': {}, 'capped': False, 'error': None}
    nts = set()
    stopfile = os.path.join(os.path.dirname(out), 'stop')
    hist = []
    try:
        checks = mod.CHECKS
        plan = []
        for c in checks:
            total = c.quick if tier == 'quick' else c.thorough
            n = total // NSHARDS + (1 if shard < total % NSHARDS else 0)
            plan.append([c, n, 0, magic_for(c.files)])
        chunks = 10
        for k in range(chunks):
            for p in plan:
                c, n, done, magic = p
                target = n * (k + 1) // chunks
                for i in range(done, target):
                    if time.monotonic() - t0 > cap: res['capped'] = True; raise StopIteration
                    if i % 16 == 0 and os.path.exists(stopfile): raise StopIteration
                    d = Draw(rng_for(seed, prop, c.name, shard, i), magic=magic)
                    try: case = c.gen(d)
                    except Invalid: continue
                    hist.append((c.name, i)); del hist[:-HISTORY]
                    try:
                        note = run_case(c, env, case)
                    except Fail as e:
                        res['failure'] = handle(c, env, d, case, str(e), tier, stopfile, shard, i)
                        res['failure']['history'] = list(hist)
                        raise StopIteration
                    res['evaluations'] += 1
                    res['per'][c.name] = res['per'].get(c.name, 0) + 1
                    for l, v in note.labels.items(): res['labels'][c.name + ':' + l] = res['labels'].get(c.name + ':' + l, 0) + v
                    if note.nt:
                        nts.add(digest((c.name, case)))
                        if len(res['samples']) < 6 and i % 7 == 0: res['samples'].append({'check': c.name, 'case': clip(case)})
                p[2] = target
    except StopIteration: pass
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    env.close()
    res['nt'] = sorted(nts)
    with open(out, 'w') as f: json.dump(res, f)

def clip(case):
    s = json.dumps(enc(case))
    return s if len(s) < 700 else s[:700] + '...'

def handle(c, env, d, case, msg, tier, stopfile, shard, i):
    budget = float(os.environ.get('VERIF_SHRINK', 25 if tier == 'quick' else 60))
    last = {'msg': msg, 'case': case}
    hang = is_hang(msg)
    def fails(cs):
        try: run_case(c, env, cs)
        except Fail as e:
            last['msg'], last['case'] = str(e), cs
            return True
        return False
    tries = 0
    if not hang:
        try:
            best, tries = shrink(c.gen, fails, d.choices, budget, lambda: os.path.exists(stopfile))
        except Exception: traceback.print_exc()
    return {'check': c.name, 'case': enc(last['case']), 'message': last['msg'], 'original': enc(case) if len(repr(case)) < 20000 else None,
            'original_message': msg, 'shard': shard, 'index': i, 'shrink_attempts': tries}

def replay_child(prop, path):
    """exit 1 when the case of the file fails"""
    mod = load(prop)
    rec = json.load(open(path))
    by = dict((x.name, x) for x in mod.CHECKS)
    env = Env(prop, 'r')
    try:
        if rec.get('history'):
            # the failure needs what earlier cases did to the process: run them again, then the case
            magics = dict((n, magic_for(x.files)) for n, x in by.items())
            for name, i in rec['history']:
                d = Draw(rng_for(rec['seed'], prop, name, rec['shard'], i), magic=magics[name])
                try: case = by[name].gen(d)
                except Invalid: continue
                run_case(by[name], env, case)
            print('PASS'); return 0
        c = by[rec['check']]
        run_case(c, env, dec(rec['case']))
    except Fail as e:
        print('FAIL %s' % e); return 1
    finally: env.close()
    print('PASS'); return 0

def _spawn(args, env, **kw):
    return subprocess.Popen([sys.executable, os.path.join(ROOT, 'run.py')] + args, env=env, cwd=ROOT, start_new_session=True, **kw)

def reproduce(prop, path, env, times=3):
    n = 0; text = ''
    for _ in range(times):
        p = _spawn([prop, '--replay-child', path], env, stdout=subprocess.PIPE)
        try: o, _ = p.communicate(timeout=150)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate(); continue
        if p.returncode == 1:
            n += 1; text = o.decode('utf-8', 'replace')
    return n, text

def known_for(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]

def main(prop, tier, seed):
    t0 = time.monotonic()
    meta = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
    meta = [m for m in meta if m['id'] == prop][0]
    mod = load(prop)
    env = dict(os.environ)
    env['VERIF_BIN'] = B.build(tsan=getattr(mod, 'TSAN', False))
    env['PYTHONHASHSEED'] = '0'
    run = tempfile.mkdtemp(prefix='vpt-run-%s-' % prop)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    failure = None; unrepro = []; total = {'evaluations': 0, 'labels': {}, 'per': {}, 'samples': []}; nts = set(); capped = False; errors = []
    attempt = 0
    while attempt < 3:
        # after a failure that does not reproduce the exploration goes on with other cases
        sd = seed if attempt == 0 else '%s.%d' % (seed, attempt)
        d = os.path.join(run, str(attempt)); os.makedirs(d)
        procs = []
        for s in range(NSHARDS):
            out = os.path.join(d, '%d.json' % s)
            procs.append((s, out, _spawn([prop, '--shard', str(s), '--tier', tier, '--seed', str(sd), '--out', out], env)))
        limit = time.monotonic() + (170 if tier == 'quick' else 720)
        pending = list(procs)
        while pending:
            time.sleep(0.05)
            for x in list(pending):
                if x[2].poll() is not None:
                    pending.remove(x)
                    if os.path.exists(x[1]):
                        try: r = json.load(open(x[1]))
                        except ValueError: continue
                        if r['failure'] and not os.path.exists(os.path.join(d, 'stop')): open(os.path.join(d, 'stop'), 'w').close()
            if time.monotonic() > limit:
                for x in pending:
                    try: os.killpg(x[2].pid, signal.SIGKILL)
                    except OSError: pass
                    x[2].wait()
                errors.append('shards over their time: %s' % [x[0] for x in pending]); break
        fails = []
        for s, out, p in procs:
            if not os.path.exists(out): errors.append('shard %d: no result' % s); continue
            try: r = json.load(open(out))
            except ValueError: errors.append('shard %d: bad result' % s); continue
            total['evaluations'] += r['evaluations']; nts.update(r['nt']); capped |= r['capped']
            for k, v in r['labels'].items(): total['labels'][k] = total['labels'].get(k, 0) + v
            for k, v in r['per'].items(): total['per'][k] = total['per'].get(k, 0) + v
            total['samples'] += r['samples'][:2]
            if r['error']: errors.append('shard %d: %s' % (s, r['error']))
            if r['failure']: fails.append(r['failure'])
        fails.sort(key=lambda f: len(json.dumps(f['case'])))
        again = False
        for f in fails[:3]:
            rdir = os.path.join(ROOT, 'replays'); os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%s.json' % (prop, digest(f['case'])))
            variants = [(f['case'], None)] + ([(f['original'], None)] if f.get('original') is not None and f['original'] != f['case'] else []) + [(None, f['history'])]
            for v, h in variants:
                rec = {'property': prop, 'check': f['check'], 'case': v, 'history': h, 'message': f['message'] if not h else f['original_message'], 'seed': str(sd), 'tier': tier, 'shard': f['shard'], 'index': f['index'],
                       'rerun': 'python3 /verif/run.py %s --replay %s' % (prop, path)}
                with open(path, 'w') as g: json.dump(rec, g, indent=1)
                n, text = reproduce(prop, path, env)
                if n >= 2: failure = (path, rec, text); break
            if failure: break
            os.unlink(path); unrepro.append({'check': f['check'], 'message': f['message'], 'case': clip(f['case'])}); again = True
        if failure or not again: break
        attempt += 1
    findings = []
    for k in known_for(prop):
        path = os.path.join(run, 'known.json')
        with open(path, 'w') as g: json.dump({'check': k['check'], 'case': k['case']}, g)
        n, text = reproduce(prop, path, env, 1)
        if n: print('KNOWN-FINDING: property=%s %s' % (prop, k['what'])); findings.append(k['id'])
    shutil.rmtree(run, ignore_errors=True)
    ev = {'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
          'coverage': {'evaluations': total['evaluations'], 'distinct_nontrivial': len(nts), 'rule': mod.RULE, 'samples': total['samples'][:8]},
          'wall_s': round(time.monotonic() - t0, 2), 'violations': 1 if failure else 0,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'cases_per_check': total['per'], 'labels': total['labels'], 'time_cap_reached': capped,
          'unreproduced_failures': unrepro, 'known_findings_seen': findings}
    if failure: ev['failure'] = {'replay': failure[0], 'message': failure[1]['message']}
    if errors: ev['errors'] = errors
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as g: json.dump(ev, g, indent=1)
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s%s' % (prop, tier, total['evaluations'], len(nts), time.monotonic() - t0, ' (time cap reached)' if capped else ''))
    for u in unrepro: print('unreproduced failure in %s: %s' % (u['check'], u['message'][:600]))
    if failure:
        print('%s: %s' % (failure[1]['check'], failure[1]['message'][:1500]))
        print('case: %s' % clip(dec(failure[1]['case'])))
        print('VIOLATION property=%s replay=%s' % (prop, failure[0]))
        return 1
    if errors:
        for e in errors: print('ERROR ' + e)
        return 2
    return 0
