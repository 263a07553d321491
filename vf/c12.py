"""C12: asynchronous signals never see or cause a broken state."""
from .core import *
from .conc import *

TECHNIQUE = "TLA+ specification of the context and of what a signal handler may see of it at every moment of a call (ConcSpec, SigOK in ConcTrace); calls of the library are single-stepped with a handler that takes snapshots at every instruction, the sequences of its findings and the effects of the calls are checked by TLC"
NOTE = "The handler runs at every instruction of the interrupted call in the program, Caliper and the C library (SIGTRAP of the single-stepping). It looks at the context, at values, pulls snapshots from a channel and pushes snapshots like a sampling service. Its snapshots in trace buffers are only counted if the program's own ones are."


def op(r, st, ids, chans, nslot, names):
    x = r.random()
    a = r.choice(ids)
    v = r.randint(1, 4)
    if x < .22:
        if "asvalue" not in ATTRS[a][1]:
            st.append(a)
        return "begin %d %d" % (a, v)
    if x < .40:
        if st and r.random() < .93:
            i = -1
            a = st.pop(i)
            return "%s %d" % ("end", a)
        return "get %d" % a if r.random() < .7 else "end %d" % a
    if x < .56:
        return "%s %d %d" % (r.choice(["set", "set", "cset"]), a, v)
    if x < .60 and a in (2, 4, 7):
        return "xchg %d %d" % (a, v)
    if x < .68:
        return "get %d" % a
    if x < .78 and chans:
        return r.choice(["snap", "pull %d", "push %d", "push %d", "push %d"]).replace("%d", str(r.choice(chans)))
    if x < .82 and chans:
        return "count %d" % r.choice([c for c in chans if c < 10] or [0]) if [c for c in chans if c < 10] else "snap"
    if x < .84 and chans:
        c = [c for c in chans if c < 10]
        return "clearch %d" % r.choice(c) if c else "snap"
    if x < .92:
        n = r.randint(1, 6)
        return "mkattr %d %s %s %s" % (n, r.choice(["int", "string", "double"]), r.choice(["default", "asvalue", "process", "nested", "global,skip"]), r.choice(["0", "0", "3"]))
    if x < .96 and nslot:
        nslot[0] += 1
        k = nslot[0]
        par = r.choice([0] + list(range(1, k))) if k > 1 else 0
        return r.choice(["child %d %d %d %d" % (k, par, 1, v), "path %d %d %d %d %d %d" % (k, par, 6, v, r.randint(1, 4), r.randint(1, 4))])
    return r.choice(["all", "find 1", "findc 2", "snap"])


SERVICES = {1: "trace", 2: "trace", 11: "aggregate", 12: "event,trace", 13: "", 14: "event,aggregate", 16: "event", 15: "timer,event,trace"}


def histories(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        ids = r.choice([[1, 3], [1, 2, 8], [1, 3, 4, 6], [1, 2, 3, 4, 5, 6, 7, 8], [2, 4], [5, 8, 1]])
        L = ["meta"] + decl(sorted(set(ids + [1, 6])))
        chans = []
        nt = r.choice([1, 1, 2, 3])
        st = {}
        nslot = [0]
        every = 1
        # a sweep of what creates a thread's or a channel's data takes longer
        for k in range(length):
            t = r.randint(1, nt)
            ch = 0
            if chans and r.random() < .6:
                ch = r.choice([1, -1, -1]) * (1 + chans.index(r.choice(chans)))
                if chans[abs(ch) - 1] == 15:
                    ch = 0
            sa = r.choice([0] + ids)
            if len(chans) < 3 and r.random() < (.5 if not chans else .05):
                c = r.choice([x for x in SERVICES if x not in chans])
                chans.append(c)
                o = "chan %d %s" % (c, SERVICES[c])
                L.append("sweep %d %d %d %d %s" % (t, r.choice([7, 13, 31, 101]), 0, sa, o) if r.random() < .5 else "do %d %s" % (t, o))
                continue
            if nt > 1 and r.random() < .05:
                L.append("join %d" % t)
                st[t] = []
                L.append("sweep %d %d 0 %d %s" % (t, r.choice([1, 3, 7]), sa, "snap"))
                continue
            o = op(r, st.setdefault(t, []), ids, chans, nslot, None)
            x = r.random()
            if x < .72 and (t in st or r.random() < .5):
                e = 1 if o.split()[0] not in ("count", "clearch", "all") else r.choice([1, 3])
                L.append("sweep %d %d %d %d %s" % (t, e, ch, sa, o))
            else:
                L.append("do %d %s" % (t, o))
        L.append("tree")
        out.append(("g%d" % i, L))
    return out


def check(run):
    b = build(["conc"], "opt")
    run.say("built")
    run.check(b["conc"], histories(run, run.scale(120, 1200), 30), "ConcTrace", "ConcTrace.cfg")
