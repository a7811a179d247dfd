# encoding: utf-8
"""python check.py <property> [--tier T] [--seed S] [--replay FILE] [--cases N]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mon import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--worker')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--one', type=int, help='run this case only')
    a = ap.parse_args()
    if REPO_FIRST not in sys.path:
        sys.path.insert(0, REPO_FIRST)
    if a.worker is None and a.replay is None and a.one is None:
        # The parent only needs names and counts, but importing the module
        # imports mpnum: a tree which cannot be imported is a broken check.
        pass
    core.prepare_process()
    mod = importlib.import_module('mon.props.' + a.prop.lower())
    if a.worker:
        k, of, n, deadline = a.worker.split(',')
        core.worker(mod, a.seed, a.tier, int(k), int(of), int(n),
                    float(deadline), a.out)
        return 0
    if a.replay:
        return core.replay(mod, a.replay)
    if a.one is not None:
        status, ctx, msg = core.run_case(mod, a.seed, a.one, a.tier,
                                         core.load_known()[mod.PROP])
        print(status, msg, ctx.sig, ctx.log, dict(ctx.events))
        return 0
    return core.run_check(mod, a.tier, a.seed, a.jobs, a.cases)


REPO_FIRST = core.REPO

if __name__ == '__main__':
    sys.exit(main())
