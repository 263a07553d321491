"""C05: context tree nodes are unique by id, immutable and reachable."""
from .core import *

TECHNIQUE = "TLA+ specification of the context tree as facts about nodes that never change, and of the path a request must be answered with (ConcTrace); model of the lock-free child lists, in which nodes are found or appended by compare-and-swap, checked by TLC (TreeMC); executions with threads stopped at chosen instructions of a request, with signals at every instruction, and free-running ones are checked by TLC against it, including a final walk over the whole tree from every thread"
NOTE = "Up to 6 threads, paths of up to 600 nodes, thousands of nodes in several blocks. Nodes that lost an append race and were given to nobody are not reachable."

DECL = ["attr 1 string nested", "attr 3 int process", "attr 8 string unaligned", "attr 20 int default", "raw 20", "attr 21 int asvalue", "attr 22 string hidden"]
ATT = [1, 3, 8, 20, 22]


class Gen:
    def __init__(self, r):
        self.r = r
        self.slots = []   # filled in earlier rounds
        self.new = []
        self.n = 0

    def slot(self):
        self.n += 1
        self.new.append(self.n)
        return self.n

    def settle(self):
        self.slots += self.new
        self.new = []

    def op(self, like=None, big=False):
        """a request, or the same request again for another slot"""
        r = self.r
        s = self.slot()
        if like:
            f = like.split()
            f[1] = str(s)
            if r.random() < .2 and f[0] == "path" and len(f) > 5:
                f = f[:r.randint(5, len(f))]
            return " ".join(f)
        par = r.choice([0] + self.slots[-6:])
        a = r.choice(ATT)
        x = r.random()
        v = lambda: r.randint(1, 6) if a != 20 else r.randint(1, 9)
        if x < .5:
            return "child %d %d %d %d" % (s, par, a, v())
        if x < .8 or not self.slots:
            n = r.choice([1, 2, 2, 3, 5])
            if big:
                a = 20
                return "path %d %d 20 %s" % (s, par, " ".join(str(i) for i in range(1, r.choice([100, 255, 256, 257, 300, 600]))))
            return "path %d %d %d %s" % (s, par, a, " ".join(str(v()) for _ in range(n)))
        return "copy %d %d %s" % (s, par, " ".join(str(r.choice(self.slots)) for _ in range(r.choice([1, 2, 3]))))


def systematic(run, k):
    out = []
    r = run.rng
    for chunk in range(0, k, 16):
        for kind in range(4):
            g = Gen(r)
            # small blocks: every few requests need a new one
            L = r.choice([[], ["cfg CALI_CONTEXTTREE_NODES_PER_BLOCK 16"]]) + list(DECL)
            for t in (1, 2, 3):
                L.append("do %d child %d 0 1 %d" % (t, g.slot(), t))
            # more children than fit into a node block, so that later requests need a new one
            if r.random() < .5:
                L.append("do 1 path %d 0 20 %s" % (g.slot(), " ".join(str(i) for i in range(1, r.choice([230, 245, 250])))))
            g.settle()
            L.append("race 1 1000 child %d 0 3 1 | 2 child %d 0 3 2" % (g.slot(), g.slot()))
            L.append("race 1 1000 path %d 1 1 4 5 | 2 child %d 0 3 2" % (g.slot(), g.slot()))
            g.settle()
            for j in range(16):
                par = r.choice([0] + g.slots[-3:])
                n = 100 + chunk + j
                f = (chunk + j + r.random()) / k * 1.2
                if kind == 0:
                    a = "child %d %d 20 %d" % (g.slot(), par, n)
                elif kind == 1:
                    a = "path %d %d 20 %d %d %d" % (g.slot(), par, n, n + 1, n + 2)
                elif kind == 2:
                    a = "copy %d %d %d %d" % (g.slot(), par, r.choice(g.slots), r.choice(g.slots))
                else:
                    a = g.op()
                b = [g.op(a) if r.random() < .75 else g.op() for _ in range(r.choice([1, 2, 3, 4]))]
                L.append("race 1 %.4f %s | %s" % (f, a, " ; ".join("%d %s" % (r.randint(2, 3), x) for x in b)))
                g.settle()
                for t in (1, 2, 3):
                    L.append("do %d %s" % (t, g.op(a)))
                g.settle()
            L.append("tree")
            out.append(("s%d.%d" % (chunk, kind), L))
    return out


def blocks(run, k, step):
    """a thread is stopped at every instruction of a request that needs a new node block, while others take blocks"""
    out = []
    r = run.rng
    for first in range(1, k, 40):
        m = r.choice([14, 16])
        L = ["cfg CALI_CONTEXTTREE_NODES_PER_BLOCK %d" % m] + list(DECL) + ["do 1 child 1 0 20 1", "do 2 child 2 0 20 2", "do 3 child 3 0 20 3"]
        n = 3
        for j in range(first, first + 40, step):
            L.append("align 1 %d %d 1 20 %d" % (m, m - 2, 10))
            n += 3
            a = r.choice(["child %d 1 20 7", "path %d 1 20 7 8", "path %d 1 20 7"]) % n
            L.append("race 1 @%d %s | 2 path %d %d 20 %s" % (j, a, n + 1, r.choice([1, 2]), " ".join(str(100 + i) for i in range(m + 2))) +
                     (" ; 3 path %d 1 20 %s" % (n + 2, " ".join(str(300 + i) for i in range(m + 2))) if r.random() < .5 else ""))
        L.append("tree")
        out.append(("b%d" % first, L))
    return out


def histories(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        g = Gen(r)
        nt = r.choice([2, 3, 4, 6])
        L = r.choice([[], ["cfg CALI_CONTEXTTREE_NODES_PER_BLOCK %d" % r.choice([14, 16, 40])]]) + list(DECL)
        if r.random() < .3:
            L.append("do 1 chan 1 trace")
        nbig = r.choice([0, 0, 1, 3])
        for k in range(length):
            x = r.random()
            big = nbig > 0 and r.random() < .2
            nbig -= big
            if x < .2:
                L.append("do %d %s" % (r.randint(1, nt), g.op(big=big)))
            elif x < .6:
                like = g.op(big=big)
                q = ["1 " + like]
                for _ in range(r.choice([1, 2, 3, 4])):
                    for u in r.sample(range(1, nt + 1), nt):
                        q.append("%d %s" % (u, g.op(like) if r.random() < .5 else g.op()))
                L.append("par | " + " ; ".join(q))
            elif x < .9:
                a = g.op()
                t = r.randint(1, nt)
                L.append("race %d %.3f %s | %s" % (t, r.random() * 1.1, a, " ; ".join("%d %s" % (r.choice([u for u in range(1, nt + 1) if u != t]), g.op(a) if r.random() < .5 else g.op()) for _ in range(r.randint(1, 4)))))
            elif x < .95:
                L.append("sweep %d 5 0 0 %s" % (r.randint(1, nt), g.op()))
            else:
                L.append("join %d" % r.randint(1, nt))
            g.settle()
            if r.random() < .05:
                L.append("tree")
        L.append("tree")
        out.append(("h%d" % i, L))
    return out


def check(run):
    b = build(["conc"], "opt")
    run.say("built")
    run.model_check("TreeMC", "TreeMC.cfg", min_states=100000)
    if run.scale(0, 1):
        run.model_check("TreeMC", "TreeMCdeep.cfg", min_states=10000)
    run.say("model checked")
    run.check(b["conc"], systematic(run, run.scale(128, 1600)), "ConcTrace", "ConcTrace.cfg", tag="sys")
    run.check(b["conc"], blocks(run, run.scale(2600, 4000), 1), "ConcTrace", "ConcTrace.cfg", tag="blk")
    run.check(b["conc"], histories(run, run.scale(80, 1000), 20), "ConcTrace", "ConcTrace.cfg", tag="hist")
