"""C24: region profiles add up."""
from .core import *
from . import qgen as Q

TECHNIQUE = "TLA+ definition of the four region profiles (ProfileSpec) with their laws checked by TLC on all small record collections (ProfileMC); profiles the library computes for random record collections and for RegionProfile runs are checked against it by TLC (ProfileTrace)"
NOTE = "Metrics are multiples of 1/16. The region path of a record is in one of its entries, with a region innermost, as the runtime writes it; RegionProfile runs use one thread and a controlled clock, and are compared with the records of its channel."


def live(r):
    types = r.sample(["function", "annotation", "loop", "my.type"], r.choice([1, 2, 3]))
    names = r.sample(["main", "foo", "bar", "a b", "x"], r.choice([1, 2, 4]))
    ops, st = ["start"] if r.random() < .8 else ["t:5", "start"], []
    on = True
    for _ in range(r.choice([5, 20, 50])):
        x = r.random()
        if x < .3:
            ops.append("t:%d" % r.choice([0, 1, 7, 100, 12345]))
        elif x < .55 and len(st) < 6:
            st.append(r.choice(types))
            ops.append("b:%s:%s" % (st[-1], r.choice(names)))
        elif x < .8 and st:
            ops.append("e:%s" % st.pop())
        elif x < .84:
            ops.append("stop" if on else "start")
            on = not on
        elif x < .86:
            ops.append("clear")
        else:
            ops.append(r.choice("xi") + ":" + r.choice(["", ""] + types + ["nothing"]))
    ops += [k + ":" + t for k in "xi" for t in ["", types[0]]]
    return ["live"] + [esc(o) for o in ops]


def scenarios(run, n):
    out = []
    for i in range(n):
        r = run.rng
        if r.random() < .3:
            out.append(("p%d" % i, [live(r) for _ in range(1)]))
            continue
        d = Q.Data(r, r.choice([0, 1, 3, 10, 25, 40]), depth=r.choice([2, 4, 7]), odd=r.random() < .3, intreg=r.random() < .3)
        L = [["info", esc(json.dumps(d.info()))]] + d.load_lines(simple="prof")
        types = [a.name for a in d.nested]
        ms = [d.vals[k].name for k in (0, 1, 2, 3, 8)] + ["nosuch"]
        for m in r.sample(ms, 2):
            for t in ["", types[0], r.choice(types + ["nosuch"])]:
                for k in ("fx", "fi", "nx", "ni"):
                    L.append(["prof", k, esc(m), esc(t)])
        out.append(("p%d" % i, L))
    return out


def post(sid, evs):
    strs = {}
    rank = lambda s: strs.setdefault(s, len(strs))
    for e in evs:
        e.pop("info", None)
        for rec in e.get("recs", []):
            rec["p"] = [[x[0], rank(x[1][1:] if isinstance(x[1], str) else str(x[1] // 16))] for x in rec["p"]]
            rec["i"] = [x[:2] for x in rec["i"] if not isinstance(x[1], str)]
            del rec["q"]
        if e["e"] == "prof":
            e["reg"] = [[[rank(x) for x in (g[0].split("/") if e["k"][0] == "n" else [g[0]])], g[1]] for g in e["reg"]]
            e["tr"], e["tt"] = e["tr"][0], e["tt"][0]
    return evs


def check(run):
    b = build(["query"], extra_flags=["-I" + os.path.join(DRIVERS, "fakempi")])
    run.say("built")
    run.model_check("ProfileMC", "ProfileMC.cfg", min_states=10000)
    run.check(b["query"], scenarios(run, run.scale(900, 20000)), "ProfileTrace", "ProfileTrace.cfg", post=post)
