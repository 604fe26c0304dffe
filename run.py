#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

def main():
    a = argparse.ArgumentParser()
    a.add_argument('property'); a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1'); a.add_argument('--replay'); a.add_argument('--replay-child')
    a.add_argument('--shard', type=int); a.add_argument('--out')
    o = a.parse_args()
    from pbt import core, build
    if o.property == 'build': print(build.build()); return 0
    if o.shard is not None: core.shard_main(o.property, o.shard, o.tier, o.seed, o.out); return 0
    if o.replay_child: return core.replay_child(o.property, o.replay_child)
    if o.replay:
        mod = core.load(o.property)
        os.environ['VERIF_BIN'] = build.build(tsan=getattr(mod, 'TSAN', False))
        rc = core.replay_child(o.property, o.replay)
        if rc: print('VIOLATION property=%s replay=%s' % (o.property, o.replay))
        return rc
    if o.tier not in ('quick', 'thorough'): o.tier = 'quick'
    return core.main(o.property, o.tier, o.seed)

if __name__ == '__main__':
    try: code = main()
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); code = 2
    sys.exit(code)
