#!/usr/bin/env python3
"""Usage: run.py <property> [...]   exit 0 held, 1 violation, 2 analysis broken."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.core import Ctx, finish
from sa.prog import Broken


def main():
    rc = 0
    for pid in sys.argv[1:2]:
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        ctx = Ctx(pid, tier)
        try:
            mod = importlib.import_module('sa.rules.' + pid.lower())
            mod.run(ctx)
            r = finish(ctx, ' '.join(mod.__doc__.split()))
        except Broken as e:
            print('%s: ANALYSIS BROKEN: %s' % (pid, e))
            # obligations that already failed are still reported
            if any(not o[1] for o in ctx.obl):
                r = finish(ctx, ' '.join((mod.__doc__ or '').split()))
            else:
                r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if rc != 1 and r != 1 else 1
    return rc


if __name__ == '__main__':
    threading = __import__('threading')
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(out[0] if out else 2)
