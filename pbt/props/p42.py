"""The checks of the server on the other configurations of its build: polling with select, worker processes, the memory pool."""
import importlib, os
from .common import *
from .. import server as S
RULE = 'non-trivial by the rule of the check that runs on the other configuration'
FILES = ('viriatum/polling/polling_select.c', 'viriatum/system/service.c', 'viriatum_commons/structures/linked_list.c', 'viriatum_commons/memory/memory_pool.h')
# the variant of the build, arguments, then checks of other properties with the number of cases
CONFS = {
    'select': ('select', [], [('p04', 'connections', 800), ('p05', 'files', 800), ('p05', 'large', 40), ('p08', 'histories', 800), ('p11', 'histories', 300), ('p11', 'crowd', 16), ('p13', 'exchanges', 200), ('p13', 'slow clients', 16),
               ('p34', 'modules', 160), ('p35', 'transports', 120), ('p35', 'slow clients', 16), ('p36', 'stop', 160), ('p36', 'crowd', 8), ('p40', 'repeat', 120), ('p40', 'end', 60)]),
    'workers': ('prefork', ['--workers=3'], [('p04', 'connections', 400), ('p05', 'files', 400), ('p09', 'directories', 160), ('p10', 'requests', 160), ('p11', 'histories', 240), ('p13', 'exchanges', 160), ('p35', 'transports', 120)]),
    'memory pool': ('mpool', [], [('p11', 'histories', 160), ('p12', 'locations', 160), ('p34', 'modules', 160), ('p36', 'stop', 120), ('p40', 'repeat', 80), ('p40', 'end', 40)]),
    'debug': ('debug', [], [('p04', 'connections', 240), ('p05', 'files', 240), ('p07', 'requests', 160), ('p08', 'histories', 160), ('p09', 'directories', 120), ('p10', 'requests', 120), ('p11', 'histories', 120), ('p12', 'locations', 120),
               ('p13', 'exchanges', 120), ('p35', 'transports', 80), ('p36', 'stop', 120), ('p40', 'repeat', 80), ('p40', 'end', 40), ('p43', 'requests', 120)]),
    'plain': ('plain', [], [('p05', 'files', 240), ('p07', 'requests', 160), ('p08', 'histories', 160)]),
}
def few(gen):
    """a crowd whose descriptors all fit in the sets of sockets"""
    def g(d):
        case = gen(d); case[0] = d.int(20, 300)
        return case
    return g
def wrap(conf, mod, run):
    """the case with the servers of the configuration, in a folder of its own"""
    variant, args, _ = CONFS[conf]; key = 'in-%s-%s' % (variant, mod)
    def r(env, case, note):
        old = env.variant, env.args, env.cache, env.tmp
        env.variant, env.args, env.cache, env.tmp = variant, args, env.cache.setdefault(key, {}), os.path.join(env.tmp, key)
        if old[2].get('last') != key:
            # the servers of the check before end
            old[2]['last'] = key
            for f in env.closers:
                if isinstance(getattr(f, '__self__', None), S.Server): f()
        if not os.path.isdir(env.tmp): os.mkdir(env.tmp); os.chmod(env.tmp, 0o777)
        try: run(env, case, note)
        finally: env.variant, env.args, env.cache, env.tmp = old
    return r
CHECKS = []
for conf, (variant, args, uses) in CONFS.items():
    for mod, name, n in uses:
        c = {c.name: c for c in importlib.import_module('pbt.props.' + mod).CHECKS}[name]
        CHECKS.append(Check('%s: %s %s' % (conf, mod.upper(), name), few(c.gen) if name == 'crowd' else c.gen, wrap(conf, mod, c.run), n, files=FILES))
