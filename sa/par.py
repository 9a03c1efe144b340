"""split one check's independent interpretations over the processors (fork; partial reports are merged)"""
import mmap
import os
import pickle
import signal
import sys
import time
import traceback

from .report import AnalysisBroken, load_known

START = time.time()
ENOUGH = 150     # seconds after which parts that are left no longer matter if there is a violation
LIMIT = 800      # seconds after which parts that are left have no verdict


class OutOfTime(BaseException):
    pass


def watch(r, flag):
    """ends a worker that can add nothing in the time left"""
    known = load_known()

    def look(*_):
        if flag[0] == 0 and any((r.prop, key) not in known for key, _ in r.violations):
            flag[0] = 1
        t = time.time() - START
        if t > LIMIT or (t > ENOUGH and flag[0] == 1):
            signal.setitimer(signal.ITIMER_REAL, 0)
            raise OutOfTime("no verdict after %d s" % t)
    signal.signal(signal.SIGALRM, look)
    signal.setitimer(signal.ITIMER_REAL, 3, 3)


class Turns:
    def __init__(self, k, n):
        self.k, self.n, self.i = k, n, -1

    def __call__(self):
        self.i += 1
        return self.i % self.n == self.k


def spread(r, body, counters=None, workers=None):
    """body(report, turns) -> picklable extra; every worker sees all loops and takes the iterations whose turn is its own"""
    n = workers or max(1, min(8, os.cpu_count() or 1))
    sys.stdout.flush()
    kids = []
    flag = mmap.mmap(-1, 1)
    for k in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                old, new, extra = len(r.floors), len(r.problems), None
                watch(r, flag)
                try:
                    extra = body(r, Turns(k, n))
                except (AnalysisBroken, OutOfTime) as e:
                    r.problems.append(str(e))
                except BaseException:
                    r.problems.append(traceback.format_exc())
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                res = (r.obligations, r.discharged, r.by_rule, r.violations, r.samples, extra, r.floors[old:], r.problems[new:])
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(res, f)
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, rd))
    extras = []
    for pid, rd in kids:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            r.problems.append("a worker of %s died" % r.prop)
            continue
        ob, di, rules, vio, samples, extra, floors, problems = pickle.loads(data)
        r.floors += floors
        r.problems += problems
        r.obligations += ob
        r.discharged += di
        for rule, (a, b) in rules.items():
            d = r.by_rule.setdefault(rule, [0, 0])
            d[0] += a
            d[1] += b
        r.violations += vio
        r.samples += samples
        if extra is not None:
            extras.append(extra)
    return extras
