"""C06: channels see events exactly while active, independently of each other."""
TECHNIQUE = "TLA+ model (CaliperCore channel actions) with TLC; model-generated and random channel programs validated by TLC trace checking"
NOTE = "Notifications of every call on every channel are compared with the specification, including channel-local context and channel deletion."
from .core import *
from .gen_core import Core
from .c01 import programs_from_model, model_scenarios, attrs_for


def channel_programs(run, n, length):
    out = []
    for i in range(n):
        r = run.rng
        nt = r.choice([1, 1, 2, 3])
        p = Core(r, nt, maxval=r.choice([3, 30]))
        for s in r.sample(["@region", "@phase", "@comm", "@loop"], r.randint(0, 2)):
            p.attr(name=s)
        for _ in range(r.randint(2, 5)):
            p.attr()
        exist, nxt = [], 1
        chst = {}
        for _ in range(length):
            x = r.random()
            if (x < 0.06 or not exist) and len(exist) < 6:
                p.lines.append("cnew %d" % nxt)
                exist.append(nxt)
                chst[nxt] = []
                nxt += 1
            elif x < 0.16:
                p.lines.append("con %d %s" % (r.choice(exist), r.choice("pc")))
            elif x < 0.23:
                p.lines.append("coff %d %s" % (r.choice(exist), r.choice("pc")))
            elif x < 0.25 and len(exist) > 1:
                c = exist.pop(r.randrange(len(exist)))
                p.lines.append("cdel %d %s" % (c, r.choice("pc")))
            elif x < 0.40:
                t, ch, a = r.randint(1, nt), r.choice(exist), r.choice(list(p.attrs))
                y = r.random()
                st = chst[ch]
                if y < 0.3:
                    v = p.value(a)
                    p.lines.append("cbegin %d %d %d %d" % (t, ch, a, v))
                    st.append(a)
                elif y < 0.5:
                    p.lines.append("cset %d %d %d %d" % (t, ch, a, p.value(a)))
                    if not p.attrs[a].val and a in st:
                        st.reverse(), st.remove(a), st.reverse()
                    if not (p.attrs[a].val and a in st):
                        st.append(a)
                elif y < 0.75 and st:
                    al = [q for q in st if not p.attrs[q].val and not p.attrs[q].una]
                    cand = [q for q in set(st) if p.attrs[q].val or p.attrs[q].una] + al[-1:]
                    if cand:
                        q = r.choice(cand)
                        p.lines.append("cend %d %d %d" % (t, ch, q))
                        st.reverse(), st.remove(q), st.reverse()
                        if p.attrs[q].val:
                            st[:] = [z for z in st if z != q]
                else:
                    p.lines.append("cget %d %d %d %s" % (t, r.choice(exist), a, r.choice("pc")))
            else:
                p.step(p_get=0.05)
        out.append(("h%d" % i, p.lines))
    return out


def check(run):
    b = build(["core"])
    run.say("built")
    run.model_check("CoreMC", "CoreMC_ch.cfg", env={"VF_PRINT": "0"}, min_states=300)
    progs, total = programs_from_model(run, "CoreMC", "CoreMC_chgen.cfg", None, run.scale(900, 6000))
    run.cov["model_transitions_as_programs"] = total
    sc = model_scenarios(run, progs, attrs_for([1, 2]), prefix="m")
    sc += channel_programs(run, run.scale(250, 2500), run.scale(80, 150))
    run.check(b["core"], sc, "CoreTrace", "CoreTrace.cfg")
