#!/usr/bin/env python3
"""Runs the static check of one property: python3 checks/run.py <id> [--tier quick|thorough]"""
import importlib
import os
import shutil
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sa.check import Ctx, Broken   # noqa: E402


class TimeUp(BaseException):
    pass


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('rules.' + pid.lower())
    ctx = Ctx(pid, tier, seed)
    me = os.getpid()

    def alarm(sig, frame):
        if os.getpid() == me:
            raise TimeUp('the time for a check is over')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(780)
    try:
        mod.run(ctx)
        rc = ctx.finish(t0, None, mod.LEVEL, mod.EXPLANATION, mod.MIN_OBLIGATIONS)
    except Broken as e:
        print('analysis broken:', e)
        rc = 2
    except (Exception, TimeUp) as e:      # a construct the analysis cannot handle: what was decided so far counts, the rest is undecided
        traceback.print_exc()
        ctx.undecide('internal', f'the analysis stopped: {type(e).__name__} {e}')
        rc = ctx.finish(t0, None, mod.LEVEL, mod.EXPLANATION, 0)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.exit(rc)


main()
