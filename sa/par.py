"""Run independent pieces of an analysis in forked workers, one per piece, and replay their verdicts into the report."""
import gc
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Ops:
    """records report calls made in a worker"""

    def __init__(self):
        self.ops = []

    def good(self, rule, what=None):
        self.ops.append(("good", (rule, what), {}))

    def bad(self, rule, where, msg, key=None):
        self.ops.append(("bad", (rule, where, msg), {"key": key}))

    def undecided(self, rule, what, why):
        self.ops.append(("undecided", (rule, what, str(why)), {}))

    def count(self, name, n=1):
        self.ops.append(("count", (name, n), {}))


def parallel(R, tasks, fn, workers=None, limit=None):
    """fn(ops, task) for every task; verdicts are added to R in task order. Returns the workers' extra results."""
    n = workers or min(8, os.cpu_count() or 1)
    tasks = list(tasks)
    thorough = getattr(R, 'tier', 'quick') == 'thorough'
    limit = limit or (600 if thorough else 150)
    total = 3000 if thorough else 450          # seconds since the start of the check
    start = getattr(R, 't0', time.time())
    if n <= 1 or len(tasks) <= 1 or os.environ.get("VERIF_SERIAL"):
        ex = []
        for t in tasks:
            o = Ops()
            try:
                ex.append(fn(o, t))
            except Exception:
                sys.stderr.write("".join(traceback.format_exc().splitlines(True)[-7:]))
                o.undecided("worker", str(t), "the analysis of this piece failed")
            for name, a, k in o.ops:
                getattr(R, name)(*a, **k)
        return ex
    sys.stdout.flush()
    sys.stderr.flush()
    tmp = tempfile.mkdtemp(prefix="sa-par-")
    kids = {}
    todo = list(range(len(tasks)))[::-1]
    allr = []
    failed = []

    seen_bad = [bool(getattr(R, 'viol', None))]

    def reap():
        pid, stt = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            t = time.time() - start
            if t > total or (seen_bad[0] and t > 90):       # out of time, or a violation is known: what is left is undecided
                failed.extend(todo)
                del todo[:]
                for k in list(kids):
                    try:
                        os.kill(k, signal.SIGKILL)
                    except OSError:
                        pass
            time.sleep(0.01)
            return
        if pid not in kids:
            return
        i, path = kids.pop(pid)
        if stt != 0:
            failed.append(i)
            return
        with open(path, "rb") as f:
            allr.append((i,) + pickle.load(f))
        if any(o[0] == "bad" for o in allr[-1][1]):
            seen_bad[0] = True
        os.unlink(path)
    while todo or kids:
        while todo and len(kids) < n:
            i = todo.pop()
            path = os.path.join(tmp, "%d" % i)
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    gc.disable()
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(limit)
                    o = Ops()
                    x = fn(o, tasks[i])
                    if os.environ.get("VERIF_TIMES"):
                        sys.stderr.write("TIME %.1f %s\n" % (time.process_time(), str(tasks[i][:2])[:150]))
                    with open(path, "wb") as f:
                        pickle.dump((o.ops, x), f)
                    rc = 0
                except BaseException:
                    sys.stderr.write("".join(traceback.format_exc().splitlines(True)[-7:]))
                    sys.stderr.flush()
                os._exit(rc)
            kids[pid] = (i, path)
        reap()
    shutil.rmtree(tmp, ignore_errors=True)
    allr.sort(key=lambda x: x[0])
    for _, ops, _ in allr:
        for name, a, k in ops:
            getattr(R, name)(*a, **k)
    for i in failed:
        R.undecided("worker", str(tasks[i]), "the analysis of this piece failed")
    return [x for _, _, x in allr]
