"""Entry point: main.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import gc
import importlib
import json
import os
import shutil
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--quiet', action='store_true')
    ap.add_argument('--digests', help='write event-log digests of all runs to this file')
    ap.add_argument('--show', type=int, help='print the scenario of run N and its result')
    a = ap.parse_args()
    from sim import core
    core.scratch_root()
    os.environ['MPLCONFIGDIR'] = core.scratch_root()
    rc = 3
    pid = os.getpid()
    try:
        if os.environ.get('VERIF_REPO'):
            sys.path.insert(0, os.environ['VERIF_REPO'])
        from sim import seams
        seams.install()           # before flavio is imported
        import flavio             # noqa
        repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
        src = os.path.realpath(os.path.dirname(flavio.__file__))
        if not src.startswith(repo + os.sep):
            print('HARNESS-ERROR flavio imported from %s, not %s' % (src, repo))
            return 3
        mod = importlib.import_module('sim.props.' + a.property.lower())
        seams.after_import()
        if hasattr(mod, 'prepare'):
            mod.prepare(a.tier)
        from sim import trace
        trace.prepare()
        gc.collect()
        gc.freeze()
        core.huge_pages()
        if a.replay:
            with open(a.replay) as f:
                rep = json.load(f)
            out = core.run_scenario(mod, rep['scenario'])
            print('REPLAY-RESULT ' + json.dumps(
                dict(violation=out.get('violation'), error=[str(x) for x in out.get('error', [])] or None,
                     digest=out.get('digest'))))
            if out.get('error'):
                rc = 3
            elif out.get('violation'):
                if not a.quiet:
                    print(out['violation'][1])
                print('VIOLATION property=%s replay=%s' % (mod.ID, a.replay))
                rc = 1
            else:
                rc = 0
            return rc
        if a.show is not None:
            sc, err = core.gen_scenario(mod, a.seed, a.show, a.tier)
            print(json.dumps(sc, indent=1) if sc else err)
            out = core.run_scenario(mod, sc)
            print(json.dumps(out, indent=1, default=str))
            return 0
        rc, agg = core.check(mod, a.tier, a.seed, budget=a.budget, runs=a.runs)
        if a.digests:
            with open(a.digests, 'w') as f:
                json.dump({str(k): v for k, v in sorted(agg['digests'].items())}, f)
        return rc
    finally:
        if os.getpid() == pid:
            shutil.rmtree(core.scratch_root(), ignore_errors=True)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if rc is not None else 3)
