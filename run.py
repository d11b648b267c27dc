#!/usr/bin/env python3
"""run.py <property> : decides one property for /repo's current tree (exit 0: holds, 1: VIOLATION line)"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from checks.common import Report


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    from checks import registry
    title, mod, fn = registry.CHECKS[prop]
    rep = Report(prop, title, tier)
    m = importlib.import_module('checks.' + mod)
    try:
        getattr(m, fn)(rep)
    except Exception as e:
        # the analysis gave up: nothing is decided beyond what was decided before, and no alarm is raised
        import traceback
        traceback.print_exc()
        rep.und('analysis gave up', '%s: %s' % (type(e).__name__, e))
    sys.exit(rep.finish())


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    code = []

    def go():
        try:
            main()
        except SystemExit as e:
            code.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            code.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(code[0] if code and isinstance(code[0], int) else 2)
