"""C22: the validator reports exactly the programs with nesting errors."""
from .core import *
from .gen_core import Core

TECHNIQUE = "TLA+ model of the validator's stacks against the ground truth of the program (ValidatorSpec on CaliperCore) with TLC; random correct and incorrect programs on several threads run on the library, every verdict checked by TLC"
NOTE = "Correct programs, and programs with one or a few nesting errors of every kind; programs of begin and end calls (a set does not open a region). Known finding: an end of a region that is not open is not reported when nothing else is wrong."

KINDS = ["nested", "nested", "nested", "default", "unaligned", "unaligned", "unaligned,nested", "process,nested", "process",
         "process,unaligned", "asvalue", "process,asvalue"]
PRE = ["ENV CALI_LOG_VERBOSITY 1", "OPT nocb noctx"]


def programs(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([1, 1, 2, 3, 5])
        p = Core(r, nt, default_scope=r.choice([None, None, None, "process"]) if nt == 1 else None, maxval=r.choice([1, 2, 30]))
        p.lines += PRE
        for s in r.sample(["@region", "@phase", "@comm", "@loop"], r.randint(0, 3)):
            p.attr(name=s)
        for _ in range(r.randint(1, 5)):
            p.attr(r.choice(["string", "string", "int", "double", "bool"]), r.choice(KINDS))
        p.noset = True
        for ch in (1, 2):
            p.lines += ["chan %d c%d CALI_SERVICES_ENABLE=validator" % (ch, ch), "con %d" % ch]
        errs = r.choice([0, 0, 0, 1, 1, 2, 4])
        errat = {r.randrange(length): r.choice(["bad", "skipend", "extra", "order"]) for _ in range(errs)}
        simple = r.random() < 0.6      # nested attributes in strict order
        for k in range(length):
            t = r.randint(1, nt)
            e = errat.get(k)
            if r.random() < 0.06 and len(p.attrs) < 14:     # attributes created after the validator
                p.attr(r.choice(["string", "string", "int"]), r.choice(KINDS))
            if e == "bad":
                p.bad_step()
            elif e == "extra":
                p.begin(t, r.choice(list(p.attrs)))
                p.lines.append(p.lines[-1])     # a second begin that is not tracked by the generator
            elif e == "skipend":
                for key in (t, 0):
                    q = p.reg.get(key)
                    if q:
                        q.pop()
                        break
            elif e == "order":
                en = p.endable(t)
                if en:
                    a, v = r.choice(en)
                    p.end(t, a)
            else:
                # one region of an as-value attribute at a time
                en = p.endable(t)
                if en and (p.depth(t) > 10 or r.random() < 0.45):
                    cand = [(a, v) for a, v in en if not ("nested" in p.attrs[a].props) or not simple or a in toplevel(p, t)]
                    if cand:
                        a, v = r.choice(cand)
                        p.end(t, a, v if r.random() < 0.4 else None)
                        continue
                a = r.choice([a for a in p.attrs if not p.attrs[a].val or a not in p.imm.get(p.key(t, a), {})] or [1])
                p.begin(t, a)
                note(p, t, a)
            if r.random() < 0.02 and nt > 1:
                tt = r.randint(2, nt)
                if r.random() < 0.7:
                    close(p, tt, [tt])
                p.lines.append("texit %d" % tt)
                p.reg.pop(tt, None), p.una.pop(tt, None), p.imm.pop(tt, None)
                p.order.pop(tt, None) if hasattr(p, "order") else None
            if nt > 1 and r.random() < 0.02:
                par(p, nt)
        if r.random() < 0.05:
            p.lines.append("vdel 2")
        if r.random() < 0.85:
            for t in range(1, nt + 1):
                close(p, t, [t])
            close(p, 1, [0])
        p.lines.append("vdel 1")
        if "vdel 2" not in p.lines:
            p.lines.append("vdel 2")
        out.append(("v%d" % i, p.lines))
    return out


def note(p, t, a):
    if not hasattr(p, "order"):
        p.order = {}
    if "nested" in p.attrs[a].props:
        p.order.setdefault(p.key(t, a), []).append(a)


def toplevel(p, t):
    """The innermost nested attribute of each store (as far as the generator knows)."""
    out = []
    for k in (t, 0):
        q = getattr(p, "order", {}).get(k, [])
        # drop the ones that have ended
        while q and sum(1 for x in q if x == q[-1]) > sum(1 for a, v in p.reg.get(k, []) + p.una.get(k, []) if a == q[-1]):
            q.pop()
        if q:
            out.append(q[-1])
    return out


def close(p, t, keys):
    for k in keys:
        for _ in range(200):
            q = [(a, v) for a, v in p.endable(t) if p.key(t, a) == k]
            if not q:
                break
            top = toplevel(p, t)
            q2 = [x for x in q if "nested" not in p.attrs[x[0]].props or x[0] in top] or q
            p.end(t, q2[0][0])


def par(p, nt):
    r = p.r
    own = [a for a in p.attrs if not p.attrs[a].proc and not p.attrs[a].val]
    if not own:
        return
    p.lines.append("par")
    for t in range(1, nt + 1):
        st = []
        for _ in range(r.randint(2, 12)):
            if st and r.random() < 0.5:
                p.lines.append("end %d %d p" % (t, st.pop()))
            else:
                a = r.choice(own)
                p.lines.append("begin %d %d %d p" % (t, a, p.value(a)))
                st.append(a)
        while st:
            p.lines.append("end %d %d p" % (t, st.pop()))
    p.lines.append("endpar")


FINDING = "an end of a region that is not open is not reported by the validator if nothing else is wrong"


def check(run):
    b = build(["core"])
    run.say("built")
    run.model_check("ValidatorMC", "ValidatorMC.cfg", min_states=1000)
    run.model_check("ValidatorMC", "ValidatorMC2.cfg", min_states=100)
    run.say("model checked")
    sc = programs(run, run.scale(350, 5000), run.scale(50, 90))
    res = run.check(b["core"], sc, "ValidatorTrace", "ValidatorTrace.cfg")
    v = [e["res"] for ev in res.values() for e in ev if e["e"] == "vdel"]
    run.cov["verdicts"] = {str(k): v.count(k) for k in sorted(set(v))}
    run.say("verdicts", run.cov["verdicts"])
    # the known finding's demonstration: begin, end, and a surplus end
    kf = [("surplus-end", PRE + ["A 1 r string nested", "INFO strict {}", "chan 1 c1 CALI_SERVICES_ENABLE=validator", "con 1",
                                 "begin 1 1 1 p", "end 1 1 p", "end 1 1 p", "vdel 1"])]
    run.check(b["core"], kf, "ValidatorTrace", "ValidatorTrace.cfg", tag="k",
              known=lambda sid, lines, evs, idx: FINDING if evs[idx].get("e") == "vdel" and evs[idx].get("res") == 0 else None)
    run.assumptions += ["programs of begin and end calls on attributes with events; the channel is active throughout"]
