"""C02: a mismatched end stops only the offending thread and corrupts nothing."""
TECHNIQUE = "TLA+ model (CaliperCore, error actions) with TLC; model-generated and random erroneous programs on up to 5 threads validated by TLC trace checking"
NOTE = "As C01, with mismatched ends at every model state and random ones on several threads."
from .core import *
from .gen_core import Core
from .c01 import programs_from_model, model_scenarios, attrs_for


def error_programs(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.randint(1, 5)
        p = Core(r, nt, default_scope=r.choice([None, None, None, "process"]), maxval=r.choice([2, 3, 30]))
        nch = r.randint(0, 2)
        for c in range(1, nch + 1):
            p.lines += ["cnew %d" % c, "con %d" % c]
        if r.random() < 0.5:
            for s in r.sample(["@region", "@phase", "@comm", "@loop"], r.randint(1, 2)):
                p.attr(name=s)
        for _ in range(r.randint(2, 6)):
            p.attr()
        prob = r.choice([0.02, 0.05, 0.15])
        for _ in range(length):
            x = r.random()
            if x < prob:
                p.bad_step()
            elif x < prob + 0.02 and nt > 1:
                t = r.randint(2, nt)
                p.lines.append("texit %d" % t)
                p.reg.pop(t, None), p.una.pop(t, None), p.imm.pop(t, None)
            else:
                p.step()
        for t in range(1, nt + 1):
            p.lines += ["ctx %d" % t, "path %d" % t, "cur %d" % t]
        out.append(("e%d" % i, p.lines))
    return out


def check(run):
    b = build(["core"])
    run.say("built")
    run.model_check("CoreMC", "CoreMC_ctx.cfg", env={"VF_PRINT": "0"}, min_states=500)
    progs, total = programs_from_model(run, "CoreMC", "CoreMC_err.cfg", None, run.scale(700, 6000))
    run.cov["model_transitions_as_programs"] = total
    sc = model_scenarios(run, progs, attrs_for([1, 4]), prefix="m")
    sc += error_programs(run, run.scale(220, 2500), run.scale(70, 120))
    run.check(b["core"], sc, "CoreTrace", "CoreTrace.cfg")
