"""C04: attribute creation is unique and stable under any schedule."""
from .core import *

TECHNIQUE = "TLA+ specification of the attribute table as one atomic object with all possible linearizations of the calls in progress (ConcSpec: properties requested, scope, global and preset rules), model of the lock-protected two-phase creation checked by TLC (AttrMC); executions with threads stopped at chosen instructions of a creation, with signals at every instruction, and free-running ones including the first use of Caliper are checked by TLC"
NOTE = "Names of up to 40 attributes per history; presets and default scope from the configuration. Nodes of attributes that lost a creation race stay in the context tree without being an attribute of that name."

TYPES = ["int", "string", "double", "uint", "bool", "addr"]
PROPS = ["default", "asvalue", "process", "thread", "nested", "hidden,asvalue", "global", "skip", "unaligned", "process,asvalue,skip", "level3", "agg,asvalue", "nomerge", "global,thread"]
PRESETS = [("asvalue", ["asvalue"]), ("asvalue:process_scope", ["asvalue", "process"]), ("nested:thread_scope", ["nested", "thread"]), ("hidden", ["hidden"]), ("skip_events:asvalue", ["skip", "asvalue"]), ("global", ["global"])]


def env(run):
    r = run.rng
    pre, L = [], []
    for n in r.sample(range(1, 9), r.choice([0, 0, 1, 3])):
        pre.append((n, r.choice(PRESETS)))
    scope = r.choice(["thread", "thread", "process"])
    if pre:
        L.append("cfg CALI_CALIPER_ATTRIBUTE_PROPERTIES " + ",".join("the.attribute.%d=%s" % (n, p[0]) for n, p in pre))
    if scope != "thread":
        L.append("cfg CALI_CALIPER_ATTRIBUTE_DEFAULT_SCOPE " + scope)
    L.append("INFO env " + json.dumps({"presets": [[n, p[1]] for n, p in pre], "defscope": scope}, separators=(",", ":")))
    return L


def make(r, n, meta):
    return "mkattr %d %s %s %s%s" % (n, r.choice(TYPES), r.choice(PROPS), r.choice(["0", "0", "5", "7", "100", "105", "207", "200"]) if meta else "0", r.choice(["", " c"]))


def op(r, nmax, meta=True):
    n = r.randint(1, nmax)
    x = r.random()
    if x < .5:
        return make(r, n, meta)
    return r.choice(["find %d", "findc %d", "byid %d", "find %d", "all"]).replace("%d", str(n))


def systematic(run, k):
    """creation of an attribute stopped at k places while others create or look up the same or another one"""
    out = []
    r = run.rng
    for chunk in range(0, k, 12):
        for kind in range(5):
            L = env(run) + ["meta", "do 3 %s 1" % r.choice(["chan", "chanoff"]), "do 2 find 1", "do 1 find 1", "race 1 1000 mkattr 900 int default 0 | 2 find 900",
                            "race 1 1000 find 901 | 2 find 900", "race 1 1000 mkattr 900 int default 0 | 2 find 900"]
            for j in range(12):
                n = j + 1
                # the first execution of one operation is what the places refer to
                m = [make(r, n, True) for _ in range(3)]
                f = (chunk + j + r.random()) / k * 1.3
                b = [["2 " + m[1]], ["2 " + m[1], "3 " + m[2], "2 find %d" % n], ["2 find %d" % n, "3 byid %d" % n, "2 all"],
                     ["2 " + make(r, n + 20, True), "3 " + m[1]], ["2 %s" % m[1], "2 findc %d" % n, "3 all"]][kind]
                L.append("race 1 %.4f %s | %s" % (f, m[0], " ; ".join(b)))
                L += ["do %d %s %d" % (t, r.choice(["find", "byid", "findc"]), n) for t in (1, 2, 3)]
            L += ["do 2 all", "do 1 all"]
            out.append(("s%d.%d" % (chunk, kind), L))
    return out


def histories(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        L = env(run)
        nt = r.choice([2, 3, 4, 5])
        nmax = r.choice([3, 8, 20, 40])
        first = r.random() < .4

        def par(m, meta):
            q = []
            for _ in range(m):
                for u in r.sample(range(1, nt + 1), nt):
                    q.append("%d %s" % (u, op(r, nmax, meta)))
            return "par | " + " ; ".join(q)
        if first:
            # the first use of Caliper is concurrent
            L.append(par(r.choice([1, 1, 2]), False))
        L += ["meta"]
        for c in range(r.randint(1, 2)):
            L.append("do %d %s %d" % (r.randint(1, nt), r.choice(["chan", "chanoff"]), c + 1))
        for k in range(length):
            x = r.random()
            if x < .25:
                L.append("do %d %s" % (r.randint(1, nt), op(r, nmax)))
            elif x < .55:
                L.append(par(r.choice([1, 2]) if nt > 3 else r.choice([1, 2, 3]), True))
            elif x < .9:
                t = r.randint(1, nt)
                L.append("race %d %.3f %s | %s" % (t, r.random() * 1.1, op(r, nmax), " ; ".join("%d %s" % (r.choice([u for u in range(1, nt + 1) if u != t]), op(r, nmax)) for _ in range(r.randint(1, 4)))))
            elif x < .96:
                L.append("sweep %d 3 0 0 %s" % (r.randint(1, nt), op(r, nmax)))
            else:
                L.append("join %d" % r.randint(1, nt))
        for u in range(1, nt + 1):
            L.append("do %d all" % u)
            L += ["do %d %s %d" % (u, r.choice(["find", "byid", "findc"]), x) for x in r.sample(range(1, nmax + 1), min(nmax, 8))]
        out.append(("%s%d" % ("f" if first else "h", i), L))
    return out


def check(run):
    b = build(["conc"], "opt")
    run.say("built")
    run.model_check("AttrMC", "AttrMC.cfg", min_states=10000)
    run.model_check("AttrMC", "AttrMCdeep.cfg", min_states=10000)
    run.say("model checked")
    run.check(b["conc"], systematic(run, run.scale(96, 1200)), "ConcTrace", "ConcTrace.cfg", tag="sys")
    run.check(b["conc"], histories(run, run.scale(120, 1500), 14), "ConcTrace", "ConcTrace.cfg", tag="hist")
