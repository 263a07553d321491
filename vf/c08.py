"""C08: on-line aggregation conserves every snapshot."""
from .core import *
from .gen_core import Core

TECHNIQUE = "TLA+ model of aggregation (AggregateSpec) with TLC; programs with pushes, events, threads, flushes and clears run on the library, every flush checked by TLC against the model"
NOTE = "All snapshots and all flushed rows of the executed programs are compared with the specification, up to about 6000 keys per thread and concurrent threads; values are small integers or eighths (exact sums)."


def common_names(attrs):
    return ["N 400 region.count raw", "N 401 count raw"] + \
        ["N %d %s#region.count raw" % (b + 400, w) for b, w in ((2000, "min"), (3000, "max"), (4000, "sum"), (5000, "avg"))]


def agg_names(a, nm):
    return ["N %d %s#%s raw" % (b + a, w, nm) for b, w in ((2000, "min"), (3000, "max"), (4000, "sum"), (5000, "avg"))]


def programs(run, n, length, big=False):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([1, 2, 3, 4])
        p = Core(r, nt, maxval=r.choice([2, 3, 6]))
        p.lines.append("OPT snap nocb noctx")
        p.lines += common_names(p)
        p.vias = "ppcn"

        def mk(props, typ):
            a = p.attr(typ, props)
            if "asvalue" not in props:
                nm = "attr.%d" % a
                p.lines += ["N %d event.%s#%s" % (b + a, w, nm) for b, w in ((100, "begin"), (200, "set"), (300, "end"))]
            return a
        norm = [mk(r.choice(["nested", "nested", "default", "unaligned", "process,nested"]), r.choice(["string", "int"]))
                for _ in range(r.randint(1, 3))]
        imm = [mk(r.choice(["asvalue,skip", "process,asvalue,skip", "asvalue,hidden,skip"]), "int") for _ in range(r.randint(1, 2))]
        metrics = []

        def metric():
            a = p.attr(r.choice(["int", "uint", "double"]), "asvalue,skip,agg")
            p.lines.append("RAW %d" % a)
            p.lines += agg_names(a, "attr.%d" % a)
            metrics.append(a)
        for _ in range(r.randint(1, 4)):
            metric()
        infoattr = [p.attr("int", "asvalue,skip"), p.attr("string", "skip")]
        p.lines.append("RAW %d" % infoattr[0])
        p.attrs[infoattr[0]].props = "raw"
        chans = list(range(1, r.randint(1, 2) + 1))
        for ch in chans:
            keys = [a for a in imm + infoattr[:1] if r.random() < 0.5]
            ev = r.random() < 0.6
            srv = "aggregate,event" if ev else "aggregate"
            p.lines.append("INFO evtcfg " + esc(json.dumps(dict(ch=ch, on=int(ev), all=1, trig=[], lvl=0, info=1, inc=[0], exc=[0], br=[0]))))
            p.lines.append("INFO aggcfg " + esc(json.dumps(dict(ch=ch, keys=keys))))
            p.lines.append("chan %d c%d CALI_SERVICES_ENABLE=%s %s" % (
                ch, ch, srv, "CALI_AGGREGATE_KEY=" + ",".join("attr.%d" % a for a in keys) if keys else ""))
            p.lines.append("con %d" % ch)

        def push(t):
            ch = r.choice(chans)
            info = ["%d %d" % (a, p.value(a)) for a in r.sample(infoattr, r.randint(0, 2))]
            for a in r.sample(metrics, r.randint(0, len(metrics))):
                lo = 0 if p.attrs[a].type == "uint" else -50
                info.append("%d %d" % (a, r.randint(lo, 100)))
            r.shuffle(info)
            # reference information of the C interface is one path as well
            return "%s %d %d %s" % (r.choice(["push", "cpush"]), t, ch, " ".join(info))
        p.only = norm + imm
        for k in range(length):
            x = r.random()
            t = r.randint(1, nt)
            if x < 0.45:
                p.lines.append(push(t))
            elif x < 0.50:
                p.lines.append("flush %d %d" % (r.randint(1, nt), r.choice(chans)))
            elif x < 0.53:
                p.lines.append("clear %d %d" % (r.randint(1, nt), r.choice(chans)))
            elif x < 0.56 and nt > 1:
                tt = r.randint(2, nt)
                p.lines.append("texit %d" % tt)
                p.reg.pop(tt, None), p.una.pop(tt, None), p.imm.pop(tt, None)
            elif x < 0.57 and len(metrics) < 6:
                metric()
            elif x < 0.62 and nt > 1:
                p.lines.append("par")
                for t in range(1, nt + 1):
                    for _ in range(r.randint(1, 8)):
                        p.lines.append(push(t))
                p.lines.append("endpar")
            elif x < 0.70:
                m, a = r.choice(metrics), r.choice(infoattr[:1])
                p.lines.append("burst %d %d %d %d %d %d %d" % (t, r.choice(chans), r.randint(1, 60), a, r.randint(1, 30), m, r.randint(0, 5)))
            else:
                p.step(p_get=0.0, maxdepth=12)
        for ch in chans:
            p.lines += ["flush 1 %d" % ch, "flush 1 %d" % ch]
        out.append(("%s%d" % ("a", i), p.lines))
    return out


def big_programs(run, n, keys):
    """Many keys per thread: beyond the sizes of the internal tables."""
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([1, 2])
        lines = ["OPT snap nocb noctx"] + common_names(None)
        lines += ["A 1 big.key int skip", "RAW 1", "A 2 big.ikey int asvalue,skip", "RAW 2", "A 3 big.m int asvalue,skip,agg", "RAW 3"]
        lines += agg_names(3, "big.m")
        nm = r.randint(0, 3)
        for k in range(nm):
            lines += ["A %d big.x%d double asvalue,skip,agg" % (4 + k, k)]
        lines.append("INFO evtcfg " + esc(json.dumps(dict(ch=1, on=0, all=1, trig=[], lvl=0, info=1, inc=[0], exc=[0], br=[0]))))
        lines.append("INFO aggcfg " + esc(json.dumps(dict(ch=1, keys=[2]))))
        lines.append("chan 1 c1 CALI_SERVICES_ENABLE=aggregate CALI_AGGREGATE_KEY=big.ikey")
        lines.append("con 1")
        lines += ["OPT nosnap", "A 9 big.ctx int skip"]
        kind = i % 4
        if kind == 0:
            # every residue of the hash table once, next to keys that are prefixes of these
            lines += ["OPT snap", "begin 1 9 1 c", "push 1 1 3 1", "OPT nosnap", "burst 1 1 8200 2 8200 3 %d" % r.randint(0, 1 << 20), "OPT snap", "push 1 1 3 2",
                      "flush 1 1", "end 1 9 c", "push 1 1 3 2", "push 1 1 2 %d 3 2" % r.randint(0, 1 << 20), "OPT nosnap", "flush 1 1"]
        elif kind == 1:
            # repeated keys, clears in between
            old = []
            for rnd in range(8):
                t = r.randint(1, nt)
                k = r.randint(100, keys // 4)
                b = r.choice([0, r.randint(0, 8192), r.randint(0, 1 << 20)])
                a = r.choice([1, 2, 2])
                if old and r.random() < 0.5:
                    t, k, a, b = r.choice(old)
                else:
                    old.append((t, k, a, b))
                lines.append("burst %d 1 %d %d %d 3 %d" % (t, r.choice([k, k + 100]), a, k, b))
                if r.random() < 0.6:
                    lines.append("clear 1 1")
                    t, k, a, b = r.choice(old)
                    lines.append("burst %d 1 %d %d %d 3 %d" % (t, k, a, k, b))
                lines.append("flush 1 1")
        else:
            for rnd in range(2):
                for t in range(1, nt + 1):
                    a = r.choice([1, 2])
                    k = r.randint(keys // 2, keys)
                    lines.append("burst %d 1 %d %d %d 3 %d" % (t, r.choice([k, k * 2, k + 100]), a, k, r.choice([0, 0, 100, 1 << 20])))
                lines.append("flush 1 1")
                if r.random() < 0.5:
                    lines += ["clear 1 1", "flush 1 1"]
        lines.append("burst 1 1 500 1 100 3 0")
        lines.append("flush 1 1")
        out.append(("b%d" % i, lines))
    return out


def check(run):
    b = build(["core"])
    run.say("built")
    run.model_check("AggregateMC", "AggregateMC.cfg", min_states=1000)
    sc = programs(run, run.scale(150, 1500), run.scale(60, 120))
    run.check(b["core"], sc, "AggregateTrace", "AggregateTrace.cfg", tag="a")
    if os.environ.get("VF_ONLY") == "a": return
    sc = big_programs(run, run.scale(8, 40), run.scale(5000, 9000))
    run.check(b["core"], sc, "AggregateTrace", "AggregateTrace.cfg", tag="b", heap="4g")
