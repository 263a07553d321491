"""C03: thread context is private, process context is shared."""
from .core import *
from .conc import *

TECHNIQUE = "TLA+ specification of the context as one atomic object with the set of all possible linearizations of the calls in progress (ConcSpec); TLC model checks the two-level locking and snapshot cache of the process context against it (ConcMC); executions in which a thread is stopped at chosen instructions of a call while others run, and free-running ones, are recorded and checked by TLC"
NOTE = "Up to 5 threads, one of them stopped inside of a call. Errors that two threads cause by ending each other's process-scope regions are modelled."


def op(r, t, st, pst, procs, thrs):
    """one random operation of thread t"""
    x = r.random()
    a = r.choice(procs if r.random() < .8 else thrs)
    v = r.randint(1, 4)
    if x < .24:
        if ATTRS[a][1].find("asvalue") < 0:
            (pst if a in procs else st).append(a)
        return "begin %d %d" % (a, v)
    if x < .40:
        s = pst if r.random() < .8 else st
        if s and r.random() < .9:
            a = s.pop(r.choice([-1, -1, -1, r.randrange(len(s))]))
            return "end %d" % a
        if a in (2, 4, 7):
            return "set %d %d" % (a, v)
        return "get %d" % a
    if x < .58:
        return "%s %d %d" % (r.choice(["set", "set", "cset"]), a, v)
    if x < .66 and a in (2, 4, 7):  # exchange is for as-value attributes
        return "xchg %d %d" % (a, v)
    if x < .80:
        return "get %d" % a
    return r.choice(["snap", "snap", "pull 1", "push 1"])


def histories(run, n, length, par):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([2, 3, 3, 4, 5])
        kind = r.random()
        procs = r.choice([[3], [4], [4, 7], [3, 6], [5], [3, 4, 5], [3, 4, 5, 6, 7], [6]])
        thrs = r.choice([[1], [1, 2], [2], [1, 8]])
        L = decl(sorted(procs + thrs)) + ["do %d chan 1 %s" % (r.randint(1, nt), r.choice(["", "event", "trace"]))]
        sts = {t: [] for t in range(1, nt + 1)}
        pst = []
        for _ in range(r.randint(1, 6)):
            t = r.randint(1, nt)
            L.append("do %d %s" % (t, op(r, t, sts[t], pst, procs, thrs)))
        for k in range(length):
            if not par or r.random() < .6:
                t = r.randint(1, nt)
                a = op(r, t, sts[t], pst, procs, thrs)
                others = []
                for _ in range(r.choice([1, 2, 2, 3, 4, 5])):
                    u = r.choice([u for u in range(1, nt + 1) if u != t])
                    others.append("%d %s" % (u, op(r, u, sts[u], pst, procs, thrs)))
                L.append("race %d %.3f %s | %s" % (t, r.choice([r.random(), r.random(), r.random() * .3, .05]), a, " ; ".join(others)))
            else:
                q = []
                for _ in range(r.randint(2, 3 if nt > 3 else 4)):
                    for u in r.sample(range(1, nt + 1), min(nt, 4)):
                        q.append("%d %s" % (u, op(r, u, sts[u], pst, procs, thrs)))
                L.append("par | " + " ; ".join(q))
            if r.random() < .3:
                for u in range(1, nt + 1):
                    L.append("do %d snap" % u)
            if r.random() < .1:
                t = r.randint(1, nt)
                L.append("join %d" % t)
                sts[t] = []
        out.append(("%s%d" % ("p" if par else "r", i), L))
    return out


# an operation and what others do while it is stopped: <<before, operation, others>>; attributes of ATTRS
PAIRS = [
    (["do 1 begin 3 1"], "end 3", ["2 begin 6 2", "2 end 6"]),
    (["do 1 begin 3 1"], "end 3", ["2 begin 3 2"]),
    (["do 1 begin 3 1"], "end 3", ["2 set 3 2"]),
    (["do 1 begin 3 1"], "end 3", ["2 end 3"]),
    (["do 1 begin 3 1"], "endv 3 1", ["2 set 3 2", "2 set 3 1"]),
    (["do 1 begin 5 1"], "end 5", ["2 begin 5 2"]),
    (["do 1 begin 5 1"], "end 5", ["2 set 5 2"]),
    (["do 1 set 4 1"], "end 4", ["2 set 4 2"]),
    (["do 1 set 4 1"], "end 4", ["2 set 7 2"]),
    (["do 1 set 4 1"], "xchg 4 2", ["2 xchg 4 3", "2 get 4"]),
    ([], "begin 3 1", ["2 begin 6 2"]),
    ([], "begin 3 1", ["2 begin 3 2"]),
    (["do 1 begin 3 1"], "set 3 2", ["2 begin 6 2"]),
    (["do 1 begin 3 1"], "set 3 2", ["2 set 3 3"]),
    (["do 1 begin 5 1"], "set 5 2", ["2 begin 5 3"]),
    ([], "set 4 1", ["2 set 4 2"]),
    ([], "snap", ["2 set 4 1", "2 snap"]),
    ([], "snap", ["2 begin 3 1"]),
    (["do 2 begin 3 1"], "snap", ["2 end 3"]),
    (["do 2 begin 3 1"], "pull 1", ["2 set 3 2"]),
    ([], "push 1", ["2 set 4 3", "2 begin 5 2"]),
    (["do 2 begin 3 1"], "get 3", ["2 end 3", "2 begin 3 2"]),
    (["do 2 begin 3 1", "do 2 begin 6 1"], "get 3", ["2 end 6", "2 end 3"]),
    ([], "begin 3 1", ["2 snap", "3 snap"]),
]


def systematic(run, k):
    out = []
    for i, (before, a, others), chunk in [(i, p, c) for i, p in enumerate(PAIRS) for c in range(0, k, 10)]:
        r = run.rng
        L = decl([3, 4, 5, 6, 7]) + ["do 3 chan 1 trace"]
        for j in [0] + list(range(chunk + 1, min(chunk + 10, k) + 1)):
            L += ["do %d get 4" % t for t in (1, 2, 3)] + before  # the threads know Caliper
            # the first time the instructions are counted
            L.append("race 1 %s %s | %s" % ("1000" if j == 0 else "%.4f" % ((j - r.random()) / k), a, " ; ".join(others)))
            L += ["do 3 snap", "do 1 snap", "do 2 snap"]
            for x in before[::-1] + ["do 1 " + a] + ["do " + o for o in others]:
                # threads in error would not take part any more
                if " end" in x or " begin" in x:
                    L.append("join " + x.split()[1])
            L = [x for n, x in enumerate(L) if not (x.startswith("join") and x in L[max(0, n - 3):n])]
        out.append(("s%d.%d" % (i, chunk), L))
    return out


def check(run):
    b = build(["conc"], "opt")
    run.say("built")
    run.model_check("ConcMC", "ConcMC.cfg", min_states=10000)
    if run.scale(0, 1):
        run.model_check("ConcMC", "ConcMCdeep.cfg", min_states=100000)
    run.say("model checked")
    run.check(b["conc"], systematic(run, run.scale(60, 800)), "ConcTrace", "ConcTrace.cfg", tag="sys")
    run.check(b["conc"], histories(run, run.scale(120, 1500), 25, False), "ConcTrace", "ConcTrace.cfg", tag="race")
    # what was recorded is the evidence here: another run is scheduled differently
    run.check(b["conc"], histories(run, run.scale(80, 800), 12, True), "ConcTrace", "ConcTrace.cfg", tag="free", confirm=0)
