"""entry point:  python3 -m fidistatic.check C01 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    sys.setrecursionlimit(200000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def run():
        from .ob import Report
        from .cxx import AnalysisBroken, SourceBroken
        rep = Report(a.id, a.tier, a.seed)
        try:
            m = importlib.import_module('fidistatic.checks.%s' % a.id.lower())
            m.run(rep)
            rc[0] = rep.finish()
        except SourceBroken as e:
            print('ANALYSIS-BROKEN %s: %s' % (a.id, e))
            rc[0] = 2
        except Exception as e:
            # the interface has no third answer: what could not be analysed is reported as
            # undecided (and counted so in the evidence), not as a violation
            if not isinstance(e, AnalysisBroken):
                traceback.print_exc()
            rep.unknown('analysis', '', '%s: %s' % (type(e).__name__, e))
            rc[0] = rep.finish()
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == '__main__':
    main()
