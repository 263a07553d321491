"""Records, .cali layouts and CalQL queries for C16, C17, C23 and C24."""
import json
from . import califmt as F
from .core import esc

NESTED, ASVALUE, GLOBAL, HIDDEN = 256, 1, 512, 128
TYPE = {"s": "string", "i": "int", "u": "uint", "d": "double", "b": "bool"}
NAMES = ["main", "foo", "bar", "foo.bar", "a b", "init", "x", "Main", "f,1", "g=2", "q\"t", "b\\s", "w", "zz"]


class Attr:
    def __init__(self, name, t, prop, meta=()):
        self.name, self.t, self.prop, self.meta = name, t, prop, list(meta)   # meta: [(Attr, value)]


def num_text(a, u):
    """text of the value of u/16 units (attributes named big: u * 10^9 / 16)"""
    if "big" in a.name:
        return str(u // 16 * 10 ** 9)
    if a.t == "b":
        return "true" if u else "false"
    if a.t == "d":
        return repr(u / 16)
    return str(u // 16)


def vtxt(a, v):
    return v if a.t == "s" else num_text(a, v)


class Data:
    """Attributes and records; a record is (path, refs, imms) with entries (Attr, value)."""

    def __init__(self, r, nrec, depth=4, odd=False, ordered=False, intreg=False):
        self.r = r
        o = (lambda n: n + r.choice([" x", "#1", ".y", ",z", ""])) if odd else (lambda n: n)
        cls = Attr(o("class.m"), "i", 0)
        mk = lambda: [(cls, 16)] if r.random() < .4 else []
        mk2 = lambda: [(cls, 16)] if r.random() < .1 else []
        self.cls = cls
        self.nested = [Attr(o("function"), "s", NESTED + 20, mk()), Attr(o("annotation"), "s", NESTED + 20, mk()),
                       Attr(o("loop"), "s", NESTED + 20)][:r.choice([1, 2, 3, 3])]
        if intreg:
            self.nested.insert(r.randint(0, len(self.nested)), Attr(o("phase"), "i", NESTED + 20))
        self.refs = [Attr(o("cfg"), "s", 20, mk()), Attr(o("rank"), "i", 60), Attr(o("ref.u"), "u", 20), Attr(o("ref.d"), "d", 20, mk())][:r.choice([1, 2, 3, 4, 4])]
        self.vals = [Attr(o("t"), "d", ASVALUE + 20), Attr(o("den"), "d", ASVALUE + 20), Attr(o("n"), "i", ASVALUE + 2048), Attr(o("u"), "u", ASVALUE, mk2()),
                     Attr(o("name"), "s", ASVALUE, mk()), Attr(o("flag"), "b", ASVALUE), Attr("count", "u", ASVALUE), Attr(o("big"), "i", ASVALUE),
                     Attr(o("d2"), "d", ASVALUE, mk2()), Attr(o("n2"), "i", ASVALUE, mk2())]
        self.attrs = [cls] + self.nested + self.refs + self.vals
        self.by = {a.name: a for a in self.attrs}
        names = r.sample(NAMES, r.choice([2, 3, 5])) if odd else r.sample(NAMES[:8], r.choice([2, 3, 4]))
        self.names = names
        self.nlet = 0
        self.recs = []
        path1 = lambda a: (a, self.value(a, True))
        paths = [[path1(r.choice(self.nested)) for _ in range(r.randint(0, depth))] for _ in range(r.choice([1, 3, 6]))]
        withcount = r.random() < .3
        few = r.random() < .5
        for _ in range(nrec):
            p = r.choice(paths)
            p = p[:r.randint(0, len(p))] if r.random() < .6 else list(p)
            q = []
            for a in self.refs:
                for _ in range(r.choice([0, 0, 1, 1, 1, 2] if r.random() < .3 else [0, 1, 1])):
                    q.append((a, self.value(a, True)))
            i = []
            for a in self.vals:
                if a.name == "count" and not withcount:
                    continue
                if r.random() < (.5 if a.name != self.vals[0].name else .8):
                    i.append((a, self.value(a, few)))
            self.recs.append((p, q, i))

    def value(self, a, few=False):
        r = self.r
        if a.t == "s":
            return r.choice(self.names)
        if a is self.vals[1]:
            return r.choice([0, 16, 32, 64, -16, -32])
        if a.name == "count":
            return 16 * r.randint(1, 5)
        if a.t == "b":
            return r.choice([0, 16])
        if a.t == "d":
            return 8 * (r.randint(0, 3) if few else r.randint(-40, 40))
        if a.t == "u":
            return 16 * (r.randint(0, 3) if few else r.randint(0, 20))
        return 16 * (r.randint(-1, 2) if few else r.randint(-20, 20))

    # ---- layout
    def stream(self, recs, simple=False):
        r = self.r
        lines, seen = [], {}
        nxt = [r.choice([12, 20, 100])]

        def emit(key, attr, val, par):
            if key in seen:
                return seen[key]
            i = nxt[0]
            nxt[0] += r.choice([1, 1, 2])
            seen[key] = i
            lines.append("__rec=node,id=%d,attr=%s,data=%s" % (i, attr, F.cesc(val)) + (",parent=%s" % par if par is not None else ""))
            return i

        def attr(a):
            par, key = F.TID[TYPE[a.t]], ("T", a.t)
            for m, v in a.meta:
                key += (m.name, v)
                par = emit(key, attr(m), vtxt(m, v), par)
            key += ("P", a.prop)
            par = emit(key, 10, str(a.prop), par)
            return emit(key + ("N", a.name), 8, a.name, par)

        def chain(es):
            key, par = (), None
            for a, v in es:
                key += ((a.name, v),)
                par = emit(key, attr(a), vtxt(a, v), par)
            return par
        order = list(self.attrs)
        r.shuffle(order)
        if r.random() < .5:
            for a in order:
                attr(a)
        for p, q, i in recs:
            groups = {}
            for e in q:
                groups.setdefault(e[0].name, []).append(e)
            gs = list(groups.values())
            r.shuffle(gs)
            chains = [list(p)] if p else []
            if simple == "prof":
                for g in gs:
                    if chains and r.random() < .3:
                        pos = 0
                        for e in g:   # above the innermost region
                            pos = r.randint(pos, len(chains[0]) - 1)
                            chains[0].insert(pos, e)
                            pos += 1
                    else:
                        chains.append(list(g))
                r.shuffle(chains)
            elif simple:
                if gs:
                    chains.append([e for n in [a.name for a in self.attrs] for g in gs if g[0][0].name == n for e in g])
            else:
                for g in gs:
                    if chains and r.random() < .6:
                        c = r.choice(chains)
                        # merge g into c, keeping both orders
                        pos = 0
                        for e in g:
                            pos = r.randint(pos, len(c))
                            c.insert(pos, e)
                            pos += 1
                    else:
                        chains.append(list(g))
                r.shuffle(chains)
            im = list(i)
            if not simple:
                r.shuffle(im)
            ids = [chain(c) for c in chains]
            at = [attr(a) for a, v in im]
            s = "__rec=ctx"
            if ids:
                s += ",ref=" + "=".join(map(str, ids))
            if at:
                s += ",attr=" + "=".join(map(str, at)) + ",data=" + "=".join(F.cesc(vtxt(a, v)) for a, v in im)
            lines.append(s)
        return "\n".join(lines) + "\n" if lines else ""

    def load_lines(self, simple=False):
        """text and load lines: the records in a random order, dealt to 1-3 streams"""
        r = self.r
        recs = list(self.recs)
        if r.random() < .7:
            r.shuffle(recs)
        k = r.choice([1, 1, 2, 3])
        parts = [[] for _ in range(k)]
        for x in recs:
            r.choice(parts).append(x)
        L = [["text", str(j), esc(self.stream(x, simple).encode("latin-1"))] for j, x in enumerate(parts)]
        ks = [str(j) for j in range(k)]
        r.shuffle(ks)
        return L + [["load"] + ks]

    # ---- queries
    def lit(self, s):
        """CalQL spelling of a word"""
        r = self.r
        if s and all(c.isalnum() or c in "._#/" for c in s) and r.random() < .8:
            return s
        if r.random() < .5:
            return "".join("\\" + c if not c.isalnum() else c for c in s)
        return '"' + "".join("\\" + c if c in '"\\' else c for c in s) + '"'

    def cond(self, extra=()):
        r = self.r
        a = r.choice(self.attrs + list(extra))
        neg = r.random() < .4
        op = r.choice(["exist", "eq", "eq", "lt", "gt"])
        n = self.lit(a.name)
        if op == "exist":
            return dict(c="nexist" if neg else "exist", a=a.name, v=0), ("not " if neg else "") + n
        if a.t == "b":
            op = "eq"
        v = self.value(a, r.random() < .7)
        if getattr(a, 'negz', False) and v == 0:
            v = 16
        t = vtxt(a, v)
        sym = {"eq": "=", "lt": "<", "gt": ">"}[op]
        c = {"eq": "neq", "lt": "ge", "gt": "le"}[op] if neg else op
        return dict(c=c, a=a.name, v=v if a.t != "s" else "s" + v), ("NOT " if neg else "") + n + r.choice([sym, " %s " % sym]) + (self.lit(t) if a.t == "s" else t)

    def query(self, aggr=None, incl=True, let=True, many=False):
        """(ast, calql)"""
        r = self.r
        ty = {a.name: a.t for a in self.attrs}
        meta = {a.name: [m.name for m, v in a.meta] for a in self.attrs}
        lets, ltx, extra = [], [], []
        wide = let and r.random() < .12   # many values that are strings
        for j in range(8 if wide else r.choice([0, 0, 1, 2, 3]) if let else 0):
            self.nlet += 1
            tgt = "let%d" % self.nlet
            f = r.choice(["ratio", "scale", "truncate", "truncate", "first", "sum", "leaf"] if not wide else ["leaf", "first", "leaf", "sum"])
            num, den, args, tx = 1, 1, [], []
            if f == "ratio":
                a = r.choice([self.vals[0], self.vals[2], self.vals[3]])
                args = [a.name, self.vals[1].name]
                tx = [self.lit(x) for x in args]
                t = "d"
                if r.random() < .5:
                    num, den, s = r.choice([(2, 1, "2"), (1, 2, "0.5"), (4, 1, "4.0"), (-1, 1, "-1")])
                    tx.append(s)
            elif f == "scale":
                a = r.choice([self.vals[0], self.vals[2], self.vals[3]] + [x for x in self.refs if x.t != "s"])
                num, den, s = r.choice([(2, 1, "2"), (1, 2, "0.5"), (3, 1, "3"), (-1, 1, "-1"), (1, 4, "2.5e-1")])
                args, tx, t = [a.name], [self.lit(a.name), s], "d"
            elif f == "truncate":
                a = r.choice([self.vals[0], self.vals[2], self.vals[3], self.vals[7]] + [x for x in self.refs if x.t != "s"])
                args, tx, t = [a.name], [self.lit(a.name)], a.t
                if a.name.startswith("big") or "big" in a.name:
                    tgt = "big" + tgt
                    k = r.choice([1, 2, 5])
                    num = 16 * k
                    tx.append("%d" % (k * 10 ** 9))
                else:
                    num = 16
                    if r.random() < .7:
                        k = r.choice([2, 3, 5, 10])
                        num = 16 * k
                        tx.append(str(k))
                        if a.t == "d" and r.random() < .4:
                            num, tx[-1] = 24, "1.5"
            elif f in ("first", "sum"):
                t = r.choice(["d", "i", "u"] + (["s"] if f == "first" else []))
                c = [x for x in self.refs + self.vals + extra if x.t == t and "big" not in x.name]
                if not c:
                    continue
                c = r.sample(c, r.randint(1, min(3, len(c))))
                args = [x.name for x in c]
                tx = [self.lit(x) for x in args]
            else:
                t = "s"
                if r.random() < .5:
                    a = r.choice(self.nested + self.refs + self.vals[:4])
                    args, tx, t = [a.name], [self.lit(a.name)], a.t
                    if "big" in a.name:
                        continue
            cond, ctx = dict(c="none", a="", v=0), ""
            if r.random() < .35:
                cond, c2 = self.cond(extra)
                ctx = r.choice([" IF ", " if "]) + c2
            lets.append(dict(t=tgt, f=f, args=args, num=num, den=den, cond=cond))
            if tx:
                ltx.append("%s=%s(%s)%s" % (tgt, f, r.choice([",", ", "]).join(tx), ctx))
            else:
                ltx.append("%s=%s()%s" % (tgt, f, ctx))
            ty[tgt] = t
            meta[tgt] = []
            extra.append(Attr(tgt, t, ASVALUE))
            # can be a negative zero, which is another key than zero
            extra[-1].negz = f == 'ratio' or (f == 'scale' and num < 0) or any(x.name in args and getattr(x, 'negz', False) for x in extra[:-1])
            if f == "leaf" and args:
                meta[tgt] = []
        wheres, wtx = [], []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            c, t = self.cond(extra)
            wheres.append(c)
            wtx.append(t)
        ops, otx = [], []
        usable = [x for x in self.vals + extra if x.t in "diu" and "big" not in x.name and x.name != "count"]
        # LET ratios of more than 16 bits of precision do not occur; sums of them stay exact
        bigs = [x for x in self.vals + extra if "big" in x.name]
        if aggr is None:
            aggr = r.random() < .8
        if aggr:
            for _ in range(40 if many else r.choice([1, 1, 2, 3, 5])):
                f = r.choice(["count", "sum", "min", "max", "avg", "any", "scale", "ratio", "percent_total", "variance", "scale_count"] +
                             (["inclusive_sum", "inclusive_scale", "inclusive_percent_total", "inclusive_ratio", "inclusive_min", "inclusive_max"] if incl else []))
                args, num, den, text, tx = [], 1, 1, "", []
                if f == "scale_count":
                    num, den, text = r.choice([(2, 1, "2"), (1, 2, "0.5"), (10, 1, "10")])
                    tx = [text]
                elif f != "count":
                    c = usable
                    if f in ("sum", "min", "max", "inclusive_sum", "inclusive_max", "any") and bigs and r.random() < .2:
                        c = bigs
                    elif f == "any" and r.random() < .3:
                        c = [x for x in [self.vals[4]] + extra if x.t == "s"]
                    if f in ("percent_total", "inclusive_percent_total", "avg"):
                        c = [x for x in c if x.t != "s"]
                    args = [r.choice(c).name]
                    if "ratio" in f:
                        args.append(r.choice([x for x in usable if x.name != args[0]]).name)
                    tx = [self.lit(x) for x in args]
                    if "ratio" in f and r.random() < .4 or "scale" in f:
                        num, den, s = r.choice([(2, 1, "2"), (1, 2, "0.5"), (3, 1, "3")])
                        tx.append(s)
                key = (f, tuple(args), text) if "scale" not in f and "ratio" not in f else (f, tuple(args))
                if any((o["f"], tuple(o["args"]), o["text"]) == key or (o["f"], tuple(o["args"])) == key for o in ops):
                    continue
                if f == "scale_count" and any(o["f"] == f for o in ops):
                    continue
                ops.append(dict(f=f, args=args, num=num, den=den, text=text))
                otx.append("%s(%s)" % (f, ",".join(tx)))
        g = dict(all=True, path=False, list=[])
        gtx = []
        if r.random() < .8:
            g["all"] = False
            if r.random() < .5:
                g["path"] = True
                gtx.append(r.choice(["path", "prop:nested"]))
            c = [x for x in self.nested + self.refs + [self.vals[4], self.vals[5], self.vals[2], self.vals[3], self.cls] + [x for x in extra if not x.negz]]
            for x in r.sample(c, min(len(c), 9 if wide else r.choice([0, 1, 1, 2, 3]))):
                g["list"].append(x.name)
                gtx.append(self.lit(x.name))
            if not gtx:
                g["all"] = True
            r.shuffle(gtx)
        cl = []
        if lets:
            cl.append(r.choice(["LET ", "let "]) + r.choice([", ", ","]).join(ltx))
        if wtx:
            cl.append(r.choice(["WHERE ", "where "]) + ", ".join(wtx))
        if otx:
            if r.random() < .8:
                cl.append(r.choice(["AGGREGATE ", "aggregate "]) + ",".join(otx))
            else:
                cl.append("SELECT *," + ",".join(otx))
        if gtx:
            cl.append(r.choice(["GROUP BY ", "group by "]) + ", ".join(gtx))
        r.shuffle(cl)
        return dict(lets=lets, wheres=wheres, g=g, aggr=ops, ty=ty, meta=meta), " ".join(cl)

    def info(self):
        return dict(ty={a.name: a.t for a in self.attrs}, meta={a.name: [m.name for m, v in a.meta] for a in self.attrs})


def ranks(evs):
    """replaces strings ("s...") by their rank among all strings of the scenario, and groups the entries of a record by attribute"""
    strs = set()

    def entry(e):
        if isinstance(e[1], str):
            strs.add(e[1])

    def conds(q):
        return [t["cond"] for t in q["lets"]] + q["wheres"]
    for e in evs:
        for rec in e.get("recs", []) + e.get("rows", []):
            for k in "pqi":
                for x in rec[k]:
                    entry(x)
        if isinstance(e.get("q"), dict):
            for c in conds(e["q"]):
                if isinstance(c["v"], str):
                    strs.add(c["v"])
    rank = {s: i for i, s in enumerate(sorted(strs))}

    def conv(x):
        if not isinstance(x[1], str):
            return x
        return [x[0], rank[x[1]] if x[1][0] == "s" else -1, 0] + x[2:]
    for e in evs:
        if "info" in e:
            e.update(e.pop("info"))
        for rec in e.get("recs", []) + e.get("rows", []):
            for k in "pqi":
                rec[k] = [conv(x) for x in rec[k]]
            rec["q"].sort(key=lambda x: x[0])
        if isinstance(e.get("q"), dict):
            for c in conds(e["q"]):
                if isinstance(c["v"], str):
                    c["v"] = rank[c["v"]]
    return evs


def post(sid, evs):
    return ranks(evs)
