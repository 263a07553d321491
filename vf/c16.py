"""C16: CalQL queries compute what they say."""
from .core import *
from . import qgen as Q

TECHNIQUE = "TLA+ definition of CalQL (QuerySpec) checked by TLC on small record sets (QueryMC); random queries over random record sets in random layouts and orders are run through the real parser, preprocessor, filter and aggregator, and TLC compares every result row (QueryTrace)"
NOTE = "Numbers are multiples of 1/16 of bounded size (plus one attribute with values of several 10^9), ratios, averages, percentages and variances are compared with 2 digits. An attribute occurs in one entry of a record; regions are in one entry."


def scenarios(run, n):
    out = []
    for i in range(n):
        r = run.rng
        d = Q.Data(r, r.choice([0, 1, 3, 10, 25, 40]), odd=r.random() < .4)
        L = []
        for _ in range(r.choice([1, 2])):
            L += d.load_lines()
            for _ in range(r.choice([2, 4, 6])):
                ast, q = d.query()
                L.append(["q", r.choice("ddc"), esc(json.dumps(ast)), esc(q.encode("latin-1"))])
        out.append(("q%d" % i, [["info", esc(json.dumps(d.info()))]] + L))
    return out


def check(run):
    b = build(["query"], extra_flags=["-I" + os.path.join(DRIVERS, "fakempi")])
    run.say("built")
    run.model_check("QueryMC", "QueryMC.cfg", min_states=10000)
    run.check(b["query"], scenarios(run, run.scale(600, 12000)), "QueryTrace", "QueryTrace.cfg", post=Q.post)
