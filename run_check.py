"""Run the static check of one property (or all): python run_check.py C01 [C02 ...] [--thorough]"""
import ctypes
import importlib
import os
import resource
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(ids):
    from ffsa.report import Report, OutOfTime, TOTAL_LIMIT
    from ffsa.program import AnalysisBroken, Program
    rc = 0
    for pid in ids:
        m = importlib.import_module('checks.' + pid.lower())
        R = Report(pid, m.RULES)
        Report.stop_at = time.monotonic() + TOTAL_LIMIT
        try:
            m.run(R, Program())
        except OutOfTime:
            R.und(sorted(m.RULES)[0], 'remaining obligations', None, 'time limit')
        except AnalysisBroken as e:
            print('ANALYSIS-BROKEN %s: %s' % (pid, e), file=sys.stderr)
            rc = max(rc, 2)
            continue
        r = R.finish()
        rc = r if rc == 0 or r == 1 else rc
    return rc


def watch(t):
    """interrupt an obligation group that takes too long: it is left undecided"""
    from ffsa.report import Report, OutOfTime, TOTAL_LIMIT, HARD_LIMIT
    while True:
        t.join(1)
        if not t.is_alive():
            return
        now = time.monotonic()
        u = Report.group_until
        if u is not None and now > u or now > Report.stop_at + HARD_LIMIT - TOTAL_LIMIT:
            Report.group_until = None
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if a != '--thorough']
    if '--thorough' in sys.argv:
        os.environ['VERIF_TIER'] = 'thorough'
    if args == ['all']:
        args = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')) if f.startswith('c') and f.endswith('.py'))
    res = []
    sys.setrecursionlimit(30000)
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: res.append(main(args)))
    t.start()
    watch(t)
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
