#!/usr/bin/env python3
"""Runs one property's check: python3 check.py <property-id> [--tier quick|thorough]"""
import importlib
import os
import resource
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
try:
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
except (ValueError, OSError):
    pass


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from checks import REGISTRY
    from report import Report
    from facts import AnalysisError
    spec = REGISTRY[prop]
    rep = Report(prop, tier, spec["rule"], "other", spec.get("floor", 0.3))
    rep.minimum = spec.get("minimum", 1)
    rep.assumptions = spec.get("assumptions", [])
    from checks.context import Context
    ctx = Context(rep, tier)
    for part in spec["parts"]:
        mod, _, fn = part.partition(":")
        try:
            getattr(importlib.import_module("checks." + mod), fn)(ctx, rep)
        except AnalysisError as ex:
            if ctx.broken:
                # the program under analysis does not compile or the tools are missing: no answer is possible
                print("analysis impossible: %s" % ex)
                rep.violation("analysis-impossible", str(ex)[-1500:], part)
            else:
                rep.undecided(part, "anchor lost: %s" % ex)
        except Exception as ex:
            traceback.print_exc()
            rep.undecided(part, "analyser error: %r" % ex)
    sys.exit(rep.finish())


if __name__ == "__main__":
    import threading
    threading.stack_size(512 << 20)
    rc = []

    def body():
        try:
            main()
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            traceback.print_exc()
            rc.append(1)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc and rc[0] is not None else 0)
