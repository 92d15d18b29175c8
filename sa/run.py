"""python3 -m sa.run <property> [quick|thorough]: analyse /repo's current source for one property."""
import importlib
import os
import sys
import threading
import traceback


def main():
    sys.dont_write_bytecode = True
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from .report import Report
    R = Report(prop, tier, seed)
    mod = importlib.import_module("sa.checks." + prop.lower())
    from .ai import AnalysisError
    try:
        mod.check(R)
    except AnalysisError as e:
        print("ERROR property=%s the source cannot be analysed: %s" % (prop, e))
        R.set("error", str(e))
        R.finish(mod.TECHNIQUE)
        return 2
    except Exception as e:          # the analyser met something it does not model: what is left counts as undecided
        sys.stderr.write("".join(traceback.format_exc().splitlines(True)[-7:]))
        R.undecided("engine", "the rest of the analysis", "%s: %s" % (type(e).__name__, str(e)[:200]))
    return R.finish(mod.TECHNIQUE)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(sys.executable, [sys.executable, "-W", "ignore", "-B", "-m", "sa.run"] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED="0"))
    rc = [2]

    def go():
        try:
            rc[0] = main()
        except BaseException:
            traceback.print_exc()
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
