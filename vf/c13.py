"""C13: written .cali data reads back unchanged."""
from .core import *
from . import califmt as F

TECHNIQUE = "TLA+ model of the .cali stream (CaliStream: what each line means); the library's writer and reader are run on random attributes, trees and records, every written line and every record read back is checked by TLC"
NOTE = "Control characters other than newline, user-defined blobs and pointers cannot be written; hidden entries are not read. Attribute kinds, metadata, values of all other types at random."


def sources(run, n):
    out = []
    for i in range(n):
        r = run.rng
        L = []
        rt = r.random() < .35
        if rt:
            L.append("runtime " + r.choice(["trace", "event,trace", "trace,event"]))
        types = {}
        props = {}
        na = r.randint(1, 7)
        for a in range(na):
            t = r.choice(F.VT + ["string", "int", "double"])
            p = r.choice([0, 0, 64, 256, 276, 20, 12, 1, 1, 65, 2049, 512, 513, 2, 3, 0x10100, 1024])
            meta = []
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                m = [j for j in range(a) if not props[j] & 1]
                if m:
                    j = r.choice(m)
                    meta += ["m%d" % j, esc(F.rvalue(r, types[j])[0].encode("latin-1"))]
            nm = r.choice(["attr%d" % a, "a.b#%d" % a, F.rstr(r) + str(a), F.rstr(r) + str(a)])
            types[a], props[a] = t, p
            L.append(["attr", "m%d" % a, esc(nm.encode("latin-1")), t, p] + meta)

        def val(a):
            return esc(F.rvalue(r, types[a])[0].encode("latin-1"))
        refs = [a for a in types if not props[a] & 1 and not props[a] & 512]
        asv = [a for a in types if props[a] & 1 and not props[a] & 512]
        gl = [a for a in types if props[a] & 512]
        if rt and r.random() < .8:
            opened = []
            for k in range(r.randint(3, 30)):
                x = r.random()
                al = refs + asv
                if not al:
                    break
                if x < .35:
                    a = r.choice(al)
                    L.append(["beg", "m%d" % a, val(a)])
                    opened.append(a)
                elif x < .5 and opened:
                    L.append(["end", "m%d" % opened.pop()])
                elif x < .65 and not opened:
                    a = r.choice(al)
                    L.append(["set", "m%d" % a, val(a)])
                elif x < .7 and gl:
                    a = r.choice(gl)
                    L.append(["glob", "m%d" % a, val(a)])
                else:
                    L.append("push")
            if r.random() < .5:
                L.append("recorder 1")
            else:
                L += ["flush", "wr 1"]
        else:
            nodes = []
            for k in range(r.randint(0, 14)):
                if refs:
                    a = r.choice(refs)
                    L.append(["node", "n%d" % k, r.choice(["-"] + nodes[-4:]), "m%d" % a, val(a)])
                    nodes.append("n%d" % k)
            for a in gl:
                if r.random() < .7 and (not rt or True):
                    L.append(["glob", "m%d" % a, val(a)])
            for k in range(r.choice([0, 1, 3, 10, 30])):
                e = []
                for _ in range(r.choice([0, 1, 1, 2, 4])):
                    if nodes and r.random() < .6:
                        e += ["n", r.choice(nodes)]
                    elif asv:
                        a = r.choice(asv)
                        e += ["a", "m%d" % a, val(a)]
                L.append(["rec"] + e)
            L.append("wr 1")
        L += ["read 1", "rewrite 2", "read 2", "merge"]
        out.append(("w%d" % i, L))
    return out


def check(run):
    b = build(["caliio"])
    run.say("built")
    run.model_check("CaliMC", "CaliMC.cfg", min_states=500)
    run.say("model checked")
    run.check(b["caliio"], sources(run, run.scale(1200, 20000)), "CaliTrace", "CaliTrace.cfg", post=F.expand)
