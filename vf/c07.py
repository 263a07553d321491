"""C07: event-triggered snapshots."""
import re
from .core import *
from .gen_core import Core, NVALS
from .c01 import programs_from_model

TECHNIQUE = "TLA+ model of snapshot triggering (SnapshotSpec on CaliperCore) with TLC; random and model-generated programs and service configurations validated by TLC trace checking"
NOTE = "Every snapshot of every call of the executed programs is compared with the specification (count, order over channels, full content). Regular expressions are matched by Python's re for the oracle."

STRS = ["foo", "foobar", "fo", "bar,baz", "a=b", "c\\d", "", "line1\nline2", "\"quoted\"", "x y z", "\u00e4\u00f6", "L" * 300,
        "L" * 300 + "x", "foo ", "1", "true"] + ["v%d" % i for i in range(16, 30)]
assert len(STRS) == NVALS["string"]


def quote(s):
    """A filter word: quoted so that the separators and blanks in it are literal."""
    return "".join("\\" + c if c in '\\"' else c for c in s) if re.match(r"^[\w=\\\"]+$", s) else \
        '"' + "".join("\\" + c if c in '\\"' else c for c in s) + '"'


def make_filter(r, maxval):
    """A filter expression and the numbers of the values it selects."""
    words, vals = [], set()
    cand = [i for i in range(1, maxval + 1) if STRS[i - 1] not in ("", "foo ") and len(STRS[i - 1]) < 100]
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < 0.4:
            i = r.choice(cand)
            words.append(quote(STRS[i - 1]))
            vals.add(i)
        elif k < 0.6:
            ii = r.sample(cand, min(len(cand), r.randint(1, 3)))
            words.append("match(" + ",".join(quote(STRS[i - 1]) for i in ii) + ")")
            vals |= set(ii)
        elif k < 0.8:
            pre = r.choice(["fo", "foo", "v1", "v2", "bar,", "x ", "c\\", "L", "li"])
            words.append("startswith(" + quote(pre) + ")")
            vals |= {i for i in range(1, maxval + 1) if STRS[i - 1].startswith(pre)}
        else:
            rx, _ = r.choice([("foo.*", 0), (".*o.*", 0), ("v[0-9]", 0), ("v1.", 0), ("f?oo", 0), ("[a-f]+", 0)])
            words.append('regex("%s")' % rx)
            vals |= {i for i in range(1, maxval + 1) if re.fullmatch(rx.encode(), STRS[i - 1].encode())}
    return r.choice([",", ", "]).join(words), sorted(vals)


def programs(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([1, 1, 2, 3])
        mv = r.choice([3, 6, 30])
        p = Core(r, nt, default_scope=r.choice([None, None, None, "process"]) if nt == 1 else None, maxval=mv)
        p.lines.append("OPT snap nocb noctx")
        pre = []
        if r.random() < 0.7:
            for s in r.sample(["@region", "@phase", "@comm", "@loop"], r.randint(1, 3)):
                pre.append(p.attr(name=s))
        nattr = r.randint(2, 6)
        have_br = r.random() < 0.4
        later = r.randint(0, nattr)

        def mk():
            props = r.choice(["nested", "nested", "default", "asvalue", "asvalue,hidden", "unaligned", "process,nested",
                              "process,asvalue", "process,unaligned", "nested,skip", "asvalue,skip", "global"])
            if have_br and nt > 1 and ("process" in props or "global" in props):
                props = "nested"    # who closes a branch opened for everyone is not documented
            if r.random() < 0.4:
                props += ",level%d" % r.randint(1, 7)
            a = p.attr(r.choice(["string", "string", "string", "int", "double", "bool"]), props)
            nm = "attr.%d" % a
            p.lines.append("N %d event.begin#%s" % (100 + a, nm))
            p.lines.append("N %d event.set#%s" % (200 + a, nm))
            p.lines.append("N %d event.end#%s" % (300 + a, nm))
            return a
        names = {1: None}
        for a in pre:
            for base, w in ((100, "begin"), (200, "set"), (300, "end")):
                p.lines.append("N %d event.%s#%s" % (base + a, w, SPECIAL[p.lines_name(a)]))
        for _ in range(nattr - later):
            mk()
        nch = r.randint(1, 3)
        for ch in range(1, nch + 1):
            c = dict(ch=ch, on=1, all=1, trig=[], lvl=0, info=1, inc=[0], exc=[0], br=[0])
            kv = []
            if r.random() < 0.1:
                c["on"] = 0
                kv.append("CALI_SERVICES_ENABLE=")
            else:
                kv.append("CALI_SERVICES_ENABLE=event")
            if r.random() < 0.3:
                allnames = {a: (SPECIAL[p.lines_name(a)] if a in pre else "attr.%d" % a) for a in
                            range(1, len(pre) + nattr + 1)}
                t = r.sample(sorted(allnames), r.randint(1, len(allnames)))
                c["all"], c["trig"] = 0, t
                kv.append("CALI_EVENT_TRIGGER=" + r.choice(",:").join(allnames[a] for a in t))
            if r.random() < 0.3:
                lv = r.choice([0, 1, 2, 4, 7, "phase"])
                c["lvl"] = 4 if lv == "phase" else lv
                kv.append("CALI_EVENT_REGION_LEVEL=%s" % lv)
            if r.random() < 0.3:
                c["info"] = 0
                kv.append("CALI_EVENT_ENABLE_SNAPSHOT_INFO=" + r.choice(["false", "0"]))
            if r.random() < 0.35:
                f, v = make_filter(r, mv)
                c["inc"] = [1] + v
                kv.append("CALI_EVENT_INCLUDE_REGIONS=" + f)
            if r.random() < 0.35:
                f, v = make_filter(r, mv)
                c["exc"] = [1] + v
                kv.append("CALI_EVENT_EXCLUDE_REGIONS=" + f)
            if have_br and r.random() < 0.7:
                f, v = make_filter(r, mv)
                c["br"] = [1] + v
                kv.append("CALI_EVENT_INCLUDE_BRANCHES=" + f)
            p.lines.append("INFO evtcfg %s" % esc(json.dumps(c)))
            p.lines.append("chan %d c%d %s" % (ch, ch, " ".join(esc(x) for x in kv)))
            p.lines.append("con %d" % ch)
        for _ in range(later):
            mk()
        ia = [p.attr("int", "asvalue,skip"), p.attr("string", "skip"), p.attr("double", "asvalue,skip")]
        usable = [a for a in p.attrs if a not in ia]
        if have_br:   # a set neither opens nor closes a branch in a documented way
            p.noset = True
        for k in range(length):
            x = r.random()
            if x < 0.08 and not have_br:
                p.lines.append("%s %d %s" % (r.choice(["con", "coff"]), r.randint(1, nch), r.choice("pc")))
            elif x < 0.16:
                info = " ".join("%d %d" % (a, p.value(a)) for a in r.sample(ia, r.randint(0, 3)))
                y = r.random()
                if y < 0.5:
                    p.lines.append("push %d %d %s" % (r.randint(1, nt), r.randint(1, nch), info))
                else:
                    p.lines.append("cpush %d %d %s" % (r.randint(1, nt), r.randint(0, nch), info))
            elif x < 0.19:
                p.lines.append("cpull %d %d %d" % (r.randint(1, nt), r.randint(1, nch), r.choice(usable)))
            elif x < 0.21:
                p.lines.append("ctx %d" % r.randint(1, nt))
            else:
                p.only = usable
                p.step(maxdepth=14, p_get=0.05)
        out.append(("s%d" % i, p.lines))
    return out


SPECIAL = {"@region": "region", "@phase": "phase", "@comm": "comm.region", "@loop": "loop"}


def lines_name(self, a):
    for ln in self.lines:
        f = ln.split()
        if f[0] == "A" and int(f[1]) == a:
            return f[2]


Core.lines_name = lines_name


def check(run):
    b = build(["core"])
    run.say("built")
    run.model_check("SnapshotMC", "SnapshotMC.cfg", env={"VF_PRINT": "0"}, min_states=1000)
    progs, total = programs_from_model(run, "SnapshotMC", "SnapshotMC_gen.cfg", None, run.scale(500, 5000))
    run.cov["model_transitions_as_programs"] = total
    pre = ["OPT snap nocb noctx", "A 1 m.1 string nested", "A 2 m.2 int asvalue", "A 3 m.3 string unaligned,level2"]
    pre += ["N %d event.%s#m.%d" % (b + a, w, a) for a in (1, 2, 3) for b, w in ((100, "begin"), (200, "set"), (300, "end"))]
    base = dict(on=1, all=1, trig=[], lvl=0, info=1, inc=[0], exc=[0], br=[0])
    for ch, kv, upd in ((1, "CALI_EVENT_INCLUDE_BRANCHES=foo,foobar", dict(br=[1, 1, 2])), (2, "CALI_EVENT_REGION_LEVEL=1", dict(lvl=1)),
                        (3, "CALI_EVENT_ENABLE_SNAPSHOT_INFO=false CALI_EVENT_EXCLUDE_REGIONS=foobar", dict(info=0, exc=[1, 2]))):
        pre += ["INFO evtcfg " + esc(json.dumps(dict(base, ch=ch, **upd))),
                "chan %d c%d CALI_SERVICES_ENABLE=event %s" % (ch, ch, kv), "con %d" % ch]
    mp = [("m%d" % i, pre + [" ".join(str(x) for x in op) for op in q]) for i, q in enumerate(progs)]
    sc = mp + programs(run, run.scale(220, 3000), run.scale(60, 120))
    sc = [(s, ["N 400 region.count raw"] + l) for s, l in sc]
    run.check(b["core"], sc, "SnapshotTrace", "SnapshotTrace.cfg")
    run.assumptions += ["branch filters: programs whose sets do not involve filtered attributes, channel active throughout"]
