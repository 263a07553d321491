"""C21: loop snapshots partition the iterations of the target loops."""
from .core import *
from .gen_core import Core
from .c07 import STRS, quote

TECHNIQUE = "TLA+ model of loop monitoring (LoopSpec) with TLC; random loop nests run on the library under a controlled clock, every snapshot checked by TLC against the model"
NOTE = "Loop nests up to depth 5 with re-entered and non-target loops, intervals in iterations and time, up to 3 channels with different targets; loops of one thread (the service keeps one state per channel)."

LOOPNAMES = [1, 2, 3, 5, 10, 14, 16, 17]      # foo foobar fo a=b "x y z" "foo " v16 v17


def programs(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([1, 1, 2, 3])
        p = Core(r, nt)
        p.lines += ["OPT snap nocb noctx", "TICK %d" % r.choice([1000, 1 << 20, 1 << 30])]
        tick = int(p.lines[-1].split()[1])
        p.lines += ["N 600 loop.iterations raw", "N 601 loop.start_iteration raw"]
        la = p.attr(name="@loop")
        p.lines.append("INFO loopattr %d" % la)
        reg = p.attr(name="@region")
        names = r.sample(LOOPNAMES, r.randint(2, 5))
        it = {}
        for k, v in enumerate(names):
            it[v] = 50 + k
            p.lines.append("LA %d L%d" % (50 + k, v))
        other = [reg] + [p.attr(props=r.choice(["nested", "nested,level2", "unaligned"])) for _ in range(2)]
        p.only = other
        nch = r.randint(1, 3)
        for ch in range(1, nch + 1):
            interval = r.choice([0, 1, 2, 3, 5, 10])
            tlimit = r.choice([0, 0, 3, 50])
            kv = ["CALI_SERVICES_ENABLE=loop_monitor" + r.choice(["", ",event", ",trace"])]
            if interval or r.random() < 0.3:
                kv.append("CALI_LOOP_MONITOR_ITERATION_INTERVAL=%d" % interval)
            if tlimit:
                kv.append("CALI_LOOP_MONITOR_TIME_INTERVAL=%.17g" % (tlimit * tick * 1e-9))
            tg = r.sample([v for v in LOOPNAMES if STRS[v - 1] != "foo "], r.randint(1, 3)) if r.random() < 0.6 else []
            if tg:
                kv.append("CALI_LOOP_MONITOR_TARGET_LOOPS=" + ",".join(STRS[v - 1] if STRS[v - 1].isalnum() else quote(STRS[v - 1]) for v in tg))
            p.lines.append("INFO loopcfg " + esc(json.dumps(dict(ch=ch, interval=interval, tlimit=tlimit, all=int(not tg), names=tg))))
            p.lines.append("chan %d c%d %s" % (ch, ch, " ".join(esc(x) for x in kv)))
            p.lines.append("con %d" % ch)
        t = r.randint(1, nt)
        budget = [length]

        def noise():
            if r.random() < 0.3:
                # the exact limit is not reached, so that rounding of the seconds does not matter
                p.lines.append("adv %d" % r.choice([1, 2, 4, 10, 40, 60]))
            if r.random() < 0.15:
                if r.random() < 0.5:
                    b = r.choice(other)
                    v = p.value(b)
                    p.lines += ["begin %d %d %d %s" % (t, b, v, p.via())]
                    if r.random() < 0.3 and budget[0] > 0 and len(stack) < 4:
                        loop()
                    p.lines += ["end %d %d p" % (t, b)]
                elif nt > 1:
                    u = r.choice([x for x in range(1, nt + 1) if x != t])
                    p.lines += ["begin %d %d 1 p" % (u, reg), "end %d %d p" % (u, reg)]
        stack = []

        def loop():
            free = [v for v in names if v not in stack]    # iteration numbers of a loop within itself overwrite each other
            if not free:
                return
            v = r.choice(free)
            stack.append(v)
            p.lines.append("begin %d %d %d %s" % (t, la, v, p.via()))
            k0 = r.choice([0, 0, 0, 1, 100, -3, -1])
            d = r.choice([1, 1, 1, -1, 7])
            for k in range(r.choice([0, 1, 2, 3, 6, 12])):
                if budget[0] <= 0:
                    break
                budget[0] -= 1
                noise()
                p.lines.append("begin %d %d %d p" % (t, it[v], k0 + k * d))
                noise()
                if len(stack) < 5 and r.random() < 0.25:
                    loop()
                p.lines.append("end %d %d p" % (t, it[v]))
            noise()
            p.lines.append("end %d %d p" % (t, la))
            stack.pop()
        while budget[0] > 0:
            budget[0] -= 1
            noise()
            loop()
        out.append(("l%d" % i, p.lines))
    return out


def check(run):
    b = build(["core"])
    run.say("built")
    run.model_check("LoopMC", "LoopMC.cfg", min_states=1000)
    run.say("model checked")
    sc = programs(run, run.scale(250, 4000), run.scale(60, 120))
    run.check(b["core"], sc, "LoopTrace", "LoopTrace.cfg")
