#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current source."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cgv.ctx import Ctx, finish  # noqa: E402
from cgv.facts import AnalysisError  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    elif '--thorough' in sys.argv:
        tier = 'thorough'
    sys.setrecursionlimit(30000)
    ctx = Ctx(prop, tier)
    try:
        mod = importlib.import_module('cgv.checks.' + prop.lower())
        try:
            mod.run(ctx)
        except AnalysisError as e:
            if not ctx.viol:
                raise
            ctx.unk('analysis', str(e))  # the violations found before stand on their own
        return finish(ctx, getattr(mod, 'SPEC', {}))
    except AnalysisError as e:
        print('ERROR property=%s analysis: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s internal error' % prop)
        return 2


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]
    t = threading.Thread(target=lambda: rc.__setitem__(0, main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
