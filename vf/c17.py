"""C17: partial aggregates combine to the aggregate of the whole."""
from .core import *
from . import qgen as Q

TECHNIQUE = "TLA+ definition of the aggregate of all records (QuerySpec; QueryMC checks on small record sets that partial aggregates combine to it in any split and merge order); random records are dealt to up to 9 aggregators whose partial results are merged in trees, chains or stars, and over the cross-process exchange with separate databases (MPI messages stand-in); TLC compares the merged rows"
NOTE = "The exchange code is run with a stand-in for MPI inside one process, with every process's database destroyed before the result is read."


def scenarios(run, n):
    out = []
    for i in range(n):
        r = run.rng
        d = Q.Data(r, r.choice([0, 1, 3, 10, 25, 40]), odd=r.random() < .3)
        L = [["info", esc(json.dumps(d.info()))]] + d.load_lines()
        for _ in range(r.choice([2, 4])):
            while True:
                ast, q = d.query(aggr=True, many=r.random() < .15)
                # records that only show what is below them have no values of their own to tell from their keys
                keys = set(ast["g"]["list"]) | {a for a in ast["meta"] if set(ast["meta"][a]) & set(ast["g"]["list"])}
                if not any(o["f"].startswith("incl") for o in ast["aggr"]) or not {a for o in ast["aggr"] for a in o["args"]} & keys:
                    break
            k = r.choice([1, 2, 2, 3, 4, 5, 7, 9])
            a = "".join(str(r.randrange(k)) for _ in range(len(d.recs) or 1))
            if r.random() < .3:
                a = "".join(sorted(a))
            L.append(["split", r.choice("tlswww"), a, esc(json.dumps(ast)), esc(q.encode("latin-1"))])
        out.append(("s%d" % i, L))
    return out


def check(run):
    b = build(["query"], flavour="asan", extra_flags=["-I" + os.path.join(DRIVERS, "fakempi")])
    run.say("built")
    run.model_check("QueryMC", "QueryMC.cfg", min_states=10000)
    run.check(b["query"], scenarios(run, run.scale(700, 12000)), "QueryTrace", "QueryTrace.cfg", post=Q.post)
