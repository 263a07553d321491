"""C11: flush, finalisation and channel deletion happen once and in order."""
from .core import *

TECHNIQUE = "TLA+ model of the life cycle of Caliper, its channels and threads as notification sequences (LifeSpec), its guarantees checked by TLC (LifeMC); random histories up to and beyond process exit run on the library (address sanitizer) with a service that records every notification, every history and every written report checked by TLC"
NOTE = "Up to 6 channels and 4 threads per history. Operations are issued one at a time (create, delete and finalise are documented as not concurrent). Operations in destructors of static objects are included when the main thread used Caliper before."

SERVICES = ["vf", "vf", "vf,recorder", "vf,trace,recorder", "vf,trace,recorder", "vf,aggregate,recorder", "vf,trace", "vf,timer,event,trace"]


def histories(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        L = []
        nt = r.choice([1, 1, 2, 3, 4])
        nch = 0
        chans = []
        stacks = {}
        proc = [0]
        attrs = set()
        annots = set()
        down = False
        services = {}
        main_first = r.random() < 0.75
        if main_first:
            L.append(r.choice(["use 1", "attr 1 1", "cpush 1", "region 1 foo"]))
            if L[0].startswith("attr"):
                attrs.add(1)

        def create(t):
            nonlocal nch
            nch += 1
            sv = r.choice(SERVICES[:-1])
            services[nch] = sv
            L.append("create %d %d %s %s %d %d %s chn%d" % (t, nch, sv, r.choice(["1", "1", "0", "d"]), r.random() < .75, r.random() < .35, r.choice("xxcn".replace("n", "p")), nch))
            chans.append(nch)

        def step(t, late=False):
            x = r.random()
            st = stacks.setdefault(t, [])
            a = r.randint(0, 5)
            if x < .12:
                if not (late and r.random() < .5) and nch < 6:
                    create(t)
            elif x < .20:
                L.append("attr %d %d" % (t, a))
                attrs.add(a)
            elif x < .46:
                api = r.choice("xxcna")
                if a == 2:
                    L.append("set %d 2 %d %s" % (t, r.randint(0, 9), api if 2 in attrs else "x"))
                elif r.random() < .55 and len(st) < 8:
                    if a == 3:
                        proc[0] += 1
                    else:
                        st.append(a)
                    L.append("begin %d %d %d %s" % (t, a, r.randint(0, 3), api if a in attrs else "x"))
                elif a == 3 and proc[0]:
                    proc[0] -= 1
                    L.append("end %d 3 0 %s" % (t, api if a in attrs else "x"))
                elif st and not down:
                    a = st.pop()
                    L.append("end %d %d 0 %s" % (t, a, api if a in attrs else "x"))
                elif down:
                    L.append("end %d %d 0 %s" % (t, a, api if a in attrs else "x"))
            elif x < .49:
                L.append("region %d %s" % (t, r.choice(["foo", "bar"])))
            elif x < .51:
                if a in attrs and a not in annots:
                    annots.add(a)
                    if a in (0, 5):
                        L.append("mkannot %d %d %d" % (t, a, r.randint(0, 3)))
            elif x < .54:
                L.append(r.choice(["async %d", "mem %d 0 0 x", "mem %d 0 0 c", "mpool %d", "cpush %d", "cpush %d", "use %d"]) % t)
            elif x < .59:
                L.append("get %d %d %d %s" % (t, a, max(0, nch - 1), r.choice("xxcpgrf")))
            elif x < .61:
                L.append("cflush0 %d 0 %d" % (t, r.random() < .4))
            elif chans:
                ch = r.choice(chans)
                o = r.choice(["push"] * 5 + ["flush", "flush", "write", "write", "write", "clear", "chset", "chreg", "chget", "act", "deact", "isact", "del"])
                if o in ("act", "deact", "isact", "del"):
                    L.append("%s %d %d %s" % (o, t, ch, r.choice("xc")))
                else:
                    L.append("%s %d %d %d %s" % (o, t, ch, r.random() < .4, r.choice("xxc")))
        for _ in range(r.randint(length // 3, length)):
            t = r.randint(1, nt) if main_first else r.randint(2, 4) if r.random() < .8 else r.randint(1, nt)
            x = r.random()
            if x < .05 and t > 1:
                L.append("join %d" % t)
                stacks.pop(t, None)
            elif x < .055 and not down or (i % 7 == 3 and len(L) == 8):
                L.append("release %d" % t)
                down = True
            else:
                step(t)
        if r.random() < .6:
            # the main thread has used Caliper before
            L += ["use 1", "late"]
            down = True
            for _ in range(r.randint(1, 12)):
                step(1, True)
        out.append(("l%d" % i, L))
    return out


def check(run):
    b = build(["life"], "asan")
    run.say("built")
    run.model_check("LifeMC", "LifeMC.cfg", min_states=1000)
    run.say("model checked")
    sc = histories(run, run.scale(160, 1500), 45)
    run.check(b["life"], sc, "LifeTrace", "LifeTrace.cfg")
