"""C20: tracked memory regions resolve exactly and add up."""
from .core import *

TECHNIQUE = "TLA+ model of the tracked regions (AllocSpec), the services' locking checked by TLC (AllocMC); random histories of announcements, releases and lookups run on the library, every record and resolved address checked by TLC"
NOTE = "Up to 40 regions at a time and 3 channels; sizes from 0 to 2^45 bytes; up to 4 threads, also running concurrently. Distinct regions do not overlap. The order of accounting and recording within one announcement or release is left open."


def programs(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([1, 1, 2, 4])
        L = []
        unit = r.choice([1, 1, 1, 8, 4096, 1 << 20, 1 << 28, 1 << 31])
        L.append("SCALE %d %d" % (r.choice([0, 0x10000, 0x7f0000000000 if unit < 1 << 20 else 1 << 32]), unit))
        mas = 0
        chans = []
        allocch, statch = [], []

        def ma():
            nonlocal mas
            mas += 1
            L.append("ma %d" % mas)

        def newch():
            ch = len(chans) + 1
            chans.append(ch)
            if r.random() < 0.75:
                cfg = [1, int(r.random() < .8), int(r.random() < .8), int(r.random() < .7), int(r.random() < .7), 0, 0]
                allocch.append(ch)
            else:
                cfg = [0, 0, 0, 0, 0, 1, int(r.random() < .8)]
                statch.append(ch)
            L.append("chan %d %s" % (ch, " ".join(map(str, cfg))))
            L.append("con %d" % ch)
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            ma()
        for _ in range(r.randint(1, 3)):
            newch()
        depth = {t: 0 for t in range(1, nt + 1)}
        slot = r.choice([10, 100, 1000])
        nslots = r.choice([3, 8, 40])
        live = {}
        order = r.choice(["rand", "up", "down", "zig"])
        seq = [0]

        def pick():
            seq[0] += 1
            k = {"rand": r.randrange(nslots), "up": seq[0] % nslots, "down": -seq[0] % nslots,
                 "zig": (seq[0] // 2 if seq[0] % 2 else nslots - 1 - seq[0] // 2) % nslots}[order]
            return k

        def track(t, k):
            elem, dims = 1, []
            for _ in range(20):
                elem = r.choice([0, 1, 1, 2, 4, 8, 3])
                dims = [r.choice([0, 1, 2, 3, 5, slot]) if r.random() < .9 else slot // 2 for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
                n = elem
                for d in dims:
                    n *= d
                if n <= slot:
                    break
            else:
                elem, dims, n = 1, [1], 1
            via = "pc"[r.random() < .5]
            if elem == 1 and len(dims) == 1 and unit == 1 and r.random() < .7:
                via = "s"
            off = min(slot - n, slot - 1) if r.random() < .2 else 0
            if k in live:
                off = live[k][0]
                if off + n > slot:
                    elem, dims, n, via = 1, [slot - off], slot - off, "c"
            live[k] = (off, n)
            L.append("track %d %d %d %d %d %s %s" % (t, k * slot + off, r.randint(1, 12), elem, r.choice([0, 0, 7, 9]), via,
                                                      " ".join(map(str, dims))))

        def addr(k):
            x = r.random()
            if k not in live or x < .1:
                return max(0, k * slot + r.randint(-1, slot))
            off, n = live[k]
            return max(0, k * slot + off + r.choice([0, 0, n - 1, n, -1, n // 2, r.randint(0, slot)]))

        def untrack(t, k):
            if k in live and r.random() < .93:
                a = k * slot + live[k][0]
                del live[k]
            else:
                # an address that is not the start of a tracked region
                a = (k + 500) * slot
                if k in live and r.random() < .7 and live[k][1] > 1:
                    a = k * slot + live[k][0] + 1
            L.append("untrack %d %d %s" % (t, a, r.choice("pc")))

        def push(t, ks):
            if not allocch:
                return
            q = []
            for m in r.sample(range(1, mas + 1), r.randint(0, mas)):
                q.append("%d %d" % (m, addr(r.choice(ks))))
            L.append("push %d %d %d %s" % (t, r.choice(chans), int(r.random() < .3), " ".join(q)))

        def step(t, ks):
            x = r.random()
            k = pick() if ks is None else r.choice(ks)
            if x < .42:
                if k in live and r.random() < .75:
                    untrack(t, k)
                else:
                    track(t, k)
            elif x < .6:
                untrack(t, r.choice(list(live)) if live and ks is None and r.random() < .8 else k)
            elif x < .93:
                push(t, ks or range(nslots))
            elif depth[t] and r.random() < .5:
                L.append("reg %d -" % t)
                depth[t] -= 1
            elif depth[t] < 4:
                L.append("reg %d t%dr%d" % (t, t, r.randint(1, 2)))
                depth[t] += 1
        for k in range(length):
            x = r.random()
            if x < .02 and mas < 6:
                ma()
            elif x < .03 and len(chans) < 3:
                newch()
            elif x < .05:
                L.append("%s %d" % (r.choice(["con", "con", "coff"]), r.choice(chans)))
            elif x < .06 and statch:
                L.append("sflush 1 %d" % r.choice(statch))
            elif x < .075 and nt > 1:
                L.append("par")
                for t in range(1, nt + 1):
                    for _ in range(r.randint(5, 40)):
                        step(t, list(range(nslots + t * 10, nslots + t * 10 + 4)))
                L.append("endpar")
                if len(L) > 0:
                    # the regions stay; further steps may not touch them
                    pass
            else:
                step(r.randint(1, nt), None)
        for c in statch:
            L.append("sflush 1 %d" % c)
        out.append(("a%d" % i, L))
    return out


def check(run):
    b = build(["alloc"])
    run.say("built")
    run.model_check("AllocMC", "AllocMC.cfg", min_states=1000)
    run.say("model checked")
    sc = programs(run, run.scale(300, 5000), run.scale(110, 300))
    run.check(b["alloc"], sc, "AllocTrace", "AllocTrace.cfg")
    run.assumptions += ["distinct tracked regions do not overlap", "allocstats accounts regions announced inside a region path"]
