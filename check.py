#!/usr/bin/env python3
"""Decides one property by static analysis of the current /repo sources:  check.py <property> [--tier quick|thorough]"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    from gals.ctx import Ctx
    from gals import props
    ctx = Ctx(prop, tier)
    watchdog(ctx, tier)
    try:
        props.run(prop, ctx)
    except Exception as e:
        if not ctx.violations:
            traceback.print_exc()
        ctx.undecided.append('analysis error: %s: %s' % (type(e).__name__, str(e)[:2000]))
    return ctx.finish()
def watchdog(ctx, tier):
    """report what was found so far when the analysis takes too long (only then)"""
    import threading, time
    soft, hard = (200, 860) if tier == 'quick' else (3000, 10000)
    def run():
        t0 = time.time()
        while True:
            time.sleep(5)
            t = time.time() - t0
            if t > hard or t > soft and ctx.violations:
                if not ctx.violations: ctx.undecided.append('the analysis did not finish in %d s' % hard)
                rc = ctx.finish()
                sys.stdout.flush()
                os._exit(rc)
    threading.Thread(target=run, daemon=True).start()
if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
