"""C10: recorded times account exactly for elapsed time."""
from .core import *
from .gen_core import Core

TECHNIQUE = "TLA+ model of the timer service (TimerSpec) with TLC; programs run on the library under a controlled clock, every recorded offset, duration and inclusive time checked by TLC"
NOTE = "The clock is replaced by a virtual one that advances between calls by arbitrary amounts (units of 1 ns up to 2^34 ns), so every recorded value is exact. Up to 3 channels and 4 threads."

TIME = ["N 500 time.offset.ns", "N 501 time.duration.ns", "N 502 time.inclusive.duration.ns",
        "N 4501 sum#time.duration.ns", "N 4502 sum#time.inclusive.duration.ns"]


def programs(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([1, 1, 2, 3, 4])
        p = Core(r, nt, default_scope=r.choice([None, None, None, "process"]) if nt == 1 else None, maxval=r.choice([2, 3, 30]))
        p.lines += ["OPT snap nocb noctx", "TICK %d 500 501 502 4501 4502" % r.choice([1, 1000, 1 << 20, 1 << 34])] + TIME

        def mk():
            a = p.attr(r.choice(["string", "int", "double", "bool"]),
                       r.choice(["nested", "nested", "nested", "default", "asvalue", "unaligned", "unaligned", "process,nested", "process,unaligned", "process,asvalue"]))
            p.lines += ["N %d event.%s#attr.%d" % (b + a, w, a) for b, w in ((100, "begin"), (200, "set"), (300, "end"))]
            return a
        attrs = [mk() for _ in range(r.randint(2, 5))]
        late = r.random() < 0.5
        same = r.random() < 0.3     # channels of the same name
        nch = r.randint(1, 3)
        aggch = []

        def newch(ch):
            ev = r.random() < 0.85
            incl = r.random() < 0.75
            agg = r.random() < 0.35
            info = r.random() < 0.9
            p.lines.append("INFO timercfg " + esc(json.dumps(dict(ch=ch, incl=int(incl and ev and info)))))
            srv = ([("event")] if ev else []) + [r.choice(["timer", "timestamp"]) if not incl else "timer"] + (["aggregate"] if agg else [])
            r.shuffle(srv)
            kv = ["CALI_SERVICES_ENABLE=" + ",".join(srv)]
            if incl:
                kv.append("CALI_TIMER_INCLUSIVE_DURATION=true")
            if not info:
                kv.append("CALI_EVENT_ENABLE_SNAPSHOT_INFO=false")
            if r.random() < 0.2:
                kv.append("CALI_EVENT_TRIGGER=" + ",".join("attr.%d" % a for a in r.sample(attrs, r.randint(1, len(attrs)))))
            p.lines.append("chan %d c%d %s" % (ch, 1 if same else ch, " ".join(kv)))
            p.lines.append("con %d" % ch)
            if agg:
                aggch.append(ch)
        made = []
        for ch in range(1, nch + 1):
            if not (late and ch == nch and nch > 1):
                newch(ch)
                made.append(ch)
        ia = [p.attr("int", "asvalue,skip"), p.attr("string", "skip")]
        p.only = attrs
        for k in range(length):
            x = r.random()
            if x < 0.25:
                p.lines.append("adv %d" % r.choice([1, 1, 2, 7, r.randint(1, 1000), r.randint(1, 100000)]))
            elif x < 0.29:
                p.lines.append("%s %d %s" % (r.choice(["con", "con", "coff"]), r.choice(made), r.choice("pc")))
            elif x < 0.35:
                info = " ".join("%d %d" % (a, p.value(a)) for a in r.sample(ia, r.randint(0, 2)))
                p.lines.append("%s %d %d %s" % (r.choice(["push", "cpush"]), r.randint(1, nt), r.choice(made), info))
            elif x < 0.37:
                p.lines.append("cpull %d %d %d" % (r.randint(1, nt), r.choice(made), ia[0]))
            elif x < 0.39 and nt > 1:
                tt = r.randint(2, nt)
                p.lines.append("texit %d" % tt)
                p.reg.pop(tt, None), p.una.pop(tt, None), p.imm.pop(tt, None)
            elif x < 0.42 and aggch:
                p.lines.append("%s %d %d" % (r.choice(["flush", "flush", "clear"]), r.randint(1, nt), r.choice(aggch)))
            elif x < 0.44 and late and nch > 1:
                late = False
                newch(nch)
                made.append(nch)
            else:
                p.step(maxdepth=14, p_get=0.0)
        for ch in aggch:
            p.lines.append("flush 1 %d" % ch)
        out.append(("t%d" % i, p.lines))
    return out


def check(run):
    b = build(["core"])
    run.say("built")
    run.model_check("TimerMC", "TimerMC.cfg", min_states=1000)
    run.say("model checked")
    sc = programs(run, run.scale(300, 4000), run.scale(90, 150))
    run.check(b["core"], sc, "TimerTrace", "TimerTrace.cfg")
