"""C09: tracing keeps every snapshot once, unaltered, within its buffer policy."""
from .core import *
from .gen_core import Core

TECHNIQUE = "TLA+ model of the trace buffers (TraceSpec) with TLC; programs with pushes, threads, flushes and clears that fill the buffers run on the library (address sanitizer), every flush and automatic write-out checked by TLC against the buffer policy"
NOTE = "Every snapshot carries a unique number; flushes and automatic writes are compared with the complete history of each thread's buffer for the policies grow, stop and flush, with buffers of 1 and 2 MiB filled up to several times."

TYPES = ["int", "uint", "double", "string", "bool", "addr"]


def programs(run, n, length, fill):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([1, 2, 3, 4])
        p = Core(r, nt, maxval=r.choice([3, 30]))
        p.lines.append("OPT snap nocb noctx mark")
        seq = p.attr("uint", "asvalue,skip", name="the.seq")
        p.lines.append("RAW %d" % seq)
        ctx = [p.attr(r.choice(TYPES[:5])) for _ in range(r.randint(1, 5))]
        info = [p.attr(r.choice(TYPES), r.choice(["asvalue,skip", "asvalue,skip", "skip", "process,skip"])) for _ in range(r.randint(1, 5))]
        if r.random() < 0.3:
            # wide entries: large attribute ids and 64-bit values
            info = [p.attr(r.choice(["double", "uint", "int"]), "asvalue,skip") for _ in range(4)]
        p.only = ctx
        chans = list(range(1, r.choice([1, 1, 2, 3]) + 1))
        pols = {}
        for ch in chans:
            pol = pols[ch] = r.choice(["grow", "grow", "stop", "stop", "flush"])
            size = r.choice([1, 1, 1, 2])
            text = str(size)
            if r.random() < 0.15:
                size, text = 2, r.choice(["0", "0", "big"])    # invalid: the default applies
            p.lines.append("INFO tracecfg " + esc(json.dumps(dict(ch=ch, pol=pol, size=size << 20))))
            p.lines.append("chan %d c%d CALI_SERVICES_ENABLE=trace CALI_TRACE_BUFFER_POLICY=%s CALI_TRACE_BUFFER_SIZE=%s" % (ch, ch, pol, text))
            p.lines.append("con %d" % ch)
        num = [0]

        def burst(t, n, maxe, ch=None):
            return "tburst %d %d %d %d %d %d %s" % (t, ch or r.choice(chans), n, r.randint(0, 1 << 30), maxe, seq, " ".join(map(str, info)))

        def any_flush(t, chs=None):
            return "%s %d %d" % (r.choice(["mflush", "mflush", "mwrite"]), t, r.choice(chs or chans))
        big = i % 3 != 2
        for k in range(length):
            x = r.random()
            t = r.randint(1, nt)
            if x < 0.30:
                p.lines.append(burst(t, r.randint(1, 40), r.choice([0, 3, 10, 60])))
            elif x < 0.42:
                p.lines.append(any_flush(t))
            elif x < 0.47:
                p.lines.append("clear %d %d" % (t, r.choice(chans)))
            elif x < 0.51 and nt > 1:
                tt = r.randint(2, nt)
                p.lines.append("texit %d" % tt)
                p.reg.pop(tt, None), p.una.pop(tt, None), p.imm.pop(tt, None)
            elif x < 0.58 and nt > 1:
                ok = [c for c in chans if pols[c] != "flush"]
                if ok:
                    p.lines.append("par")
                    for t in range(1, nt + 1):
                        for _ in range(r.randint(1, 5)):
                            p.lines.append(burst(t, r.randint(1, 80), r.choice([0, 3, 10, 60]), r.choice(ok)))
                    p.lines.append("endpar")
            elif x < 0.66 and big:
                # fill a buffer (several bursts, some with the same numbers of entries)
                ch = r.choice(chans)
                for _ in range(r.randint(1, 2)):
                    p.lines.append(burst(t, r.randint(fill // 2, fill), r.choice([80, 100]), ch))
                p.lines += [any_flush(r.randint(1, nt), [ch]), burst(t, r.randint(1, 30), r.choice([0, 3]), ch)]
                if r.random() < 0.5:
                    p.lines += [any_flush(r.randint(1, nt), [ch])]
            else:
                p.step(p_get=0.0, maxdepth=16)
        for ch in chans:
            p.lines += ["mflush 1 %d" % ch, "mwrite 1 %d" % ch]
        out.append(("t%d" % i, p.lines))
    return out


def check(run):
    b = build(["core"], "asan")
    run.say("built")
    run.model_check("TraceMC", "TraceMC.cfg", min_states=1000)
    run.say("model checked")
    sc = programs(run, run.scale(48, 400), 40, 1400)
    run.check(b["core"], sc, "TraceTrace", "TraceTrace.cfg", heap="4g")
