"""C14: merging streams equals reading their union."""
from .core import *
from . import califmt as F

TECHNIQUE = "TLA+ model of the .cali stream and of a database reading several of them (CaliMC, exhaustive over interleavings and lost lines); generated streams with clashing ids are merged by the library in different orders and in parallel, records and database checked by TLC"
NOTE = "2 to 5 streams of up to 40 records over shared attributes and trees. An as-value global keeps the value of the stream read last."


def scenarios(run, n):
    out = []
    for i in range(n):
        r = run.rng
        w = F.World(r, r.randint(1, 7), r.randint(0, 14), r.choice([1, 4, 10, 25]))
        ns = r.choice([2, 2, 3, 5])
        L = []
        for k in range(1, ns + 1):
            recs = [x for x in w.recs if r.random() < .6]
            r.shuffle(recs)
            ids = None
            if r.random() < .5:
                # ids in any order, overlapping those of the other streams and of the database
                hi = r.choice([200, 300, 1000])
                ids = r.sample(range(12, 12 + hi), min(hi, 200))
            try:
                if r.random() < .3:
                    w.globs = [(a, F.rvalue(r, w.attrs[a][1])[1]) for a, v in w.globs]
                lines = w.stream(r, recs, ids, globs=r.random() < .8)
            except StopIteration:
                lines = w.stream(r, recs)
            L.append(["text", str(k), "good", esc(("\n".join(lines) + "\n").encode("latin-1"))])
        ks = list(range(1, ns + 1))
        for _ in range(2):
            r.shuffle(ks)
            q = list(map(str, ks))
            if r.random() < .2:
                q.append(q[0])      # the same stream again
            L.append(["read"] + q)
        if r.random() < .5:
            L.append(["merge", str(ks[0])])
        if r.random() < .6:
            L.append(["pread"] + list(map(str, ks)))
        if r.random() < .5:
            L += ["rewrite w", "read w %d" % ks[0]]
        out.append(("m%d" % i, L))
    return out


def check(run):
    b = build(["caliio"])
    run.say("built")
    run.model_check("CaliMC", "CaliMC.cfg", min_states=500)
    run.say("model checked")
    run.check(b["caliio"], scenarios(run, run.scale(500, 8000)), "CaliTrace", "CaliTrace.cfg", post=F.expand, confirm=6)
