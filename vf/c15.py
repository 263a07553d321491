"""C15: damaged input is rejected without harm."""
from .core import *
from . import califmt as F

TECHNIQUE = "TLA+ model of the .cali stream with lost, damaged and truncated lines (CaliMC, CaliTrace); damaged streams are read by a library built with address and undefined-behaviour sanitizers, what is reported and the undamaged streams read along are checked by TLC"
NOTE = "Truncation at any byte, removed, repeated, moved and replaced lines, and random bytes (for those only that nothing crashes or hangs and that other streams are unaffected). The cut last line of a truncated stream may be read as far as it goes."

BAD = ["", "hello", "__rec=", "__rec=foo,id=1", "__rec=node", "__rec=node,", "__rec=node,id=77", "__rec=node,attr=8,data=x",
       "__rec=node,id=77,attr=8", "__rec=node,id=901,attr=900,data=x", "__rec=node,id=901,attr=8,data=lost,parent=900",
       "__rec=ctx,ref=900", "__rec=ctx,ref=900=901", "__rec=ctx,attr=900,data=1", "__rec=ctx,attr=8=9,data=1", "__rec=ctx,attr=8,data=a=b",
       "__rec=ctx,data=a", "__rec=ctx,attr=8", "__rec=ctx", "__rec=globals", "__rec=globals,ref=900", "__rec=globals,attr=900,data=3",
       "__rec=globals,attr=8", "__rec=node,id=901,attr=9,data=nonsense", "__rec=node,id=901,attr=10,data=abc,parent=1",
       "__rec=node,id=901,attr=3,data=x", "__rec=node,id=901,attr=1,data=5", "__rec=node,id=901,attr=11,data=5", "__rec=node,id=901,attr=8,data=,parent=3",
       "__rec=ctx,ref=3", "__rec=ctx,ref=8", "__rec=ctx,ref=11=0", "__rec=ctx,attr=10,data=x", "__rec=ctx,attr=3,data=x", "# comment", "{}", "__rec=ctx,ref=900,attr=8,data=zz"]


def garble(r, text, low):
    """low: lowest byte put in (strings with NUL bytes are not copied faithfully, so none where records are compared after copying)"""
    b = list(text)
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        if not b:
            break
        x = r.random()
        i = r.randrange(len(b))
        if x < .4:
            b[i] = chr(r.randrange(low, 256))
        elif x < .6:
            del b[i:i + r.choice([1, 1, 2, 10])]
        elif x < .8:
            b[i:i] = [chr(r.choice(b"=,\\\n0123456789abc-" if low else b"=,\\\n0123456789abc\0-")) for _ in range(r.choice([1, 1, 3]))]
        else:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice([5, 30])]
    return "".join(b)


def scenarios(run, n):
    out = []
    for i in range(n):
        r = run.rng
        w = F.World(r, r.randint(1, 6), r.randint(0, 10), r.choice([1, 4, 10]))
        L = []
        kinds = {}
        merge = r.random() < .4
        for k in range(1, 4):
            recs = [x for x in w.recs if r.random() < .7]
            lines = w.stream(r, recs)
            kind = "good"
            if k == 2 or r.random() < .3:
                x = r.random()
                kind = "plain"
                if x < .25:
                    for _ in range(r.choice([1, 1, 2, 4])):
                        if lines:
                            del lines[r.randrange(len(lines))]
                elif x < .5:
                    for _ in range(r.choice([1, 1, 2, 4])):
                        lines.insert(r.randint(0, len(lines)), r.choice(BAD))
                elif x < .6:
                    for _ in range(r.choice([1, 2])):
                        if lines:
                            lines.insert(r.randint(0, len(lines)), r.choice(lines))
                elif x < .7:
                    r.shuffle(lines)
                elif x < .75:
                    lines = [r.choice(BAD) for _ in range(r.randint(1, 30))]
            text = "\n".join(lines) + ("\n" if lines else "")
            if kind == "plain":
                if x >= .87:
                    kind = "opaque"
                    text = garble(r, text, int(merge))
                elif x >= .75:
                    kind = "cut"
                    text = text[:r.randint(0, len(text))]
            kinds[k] = kind
            L.append(["text", str(k), kind, esc(text.encode("latin-1"))])
        L.append("read 2")
        if r.random() < .8:
            L += [["query", esc(r.choice(["format table", "format json", "format expand", "format cali", "format tree",
                                          "aggregate count() group by attr0 format table", "format json-split"]))]]
        L.append("read 1 2 3")
        if r.random() < .4:
            L.append(["query", esc("aggregate count(),sum(attr1) group by attr0,attr2 format cali")])
        if merge:
            L.append("rewrite w" if "opaque" not in kinds.values() and "plain" not in kinds.values() and "cut" not in kinds.values() else "merge")
        if r.random() < .3:
            L.append("read 3 2 1")
        out.append(("d%d" % i, L))
    return out


def check(run):
    b = build(["caliio"], flavour="asan")
    run.say("built")
    run.model_check("CaliMC", "CaliMC.cfg", min_states=500)
    run.say("model checked")
    run.check(b["caliio"], scenarios(run, run.scale(900, 12000)), "CaliTrace", "CaliTrace.cfg", post=F.expand)
