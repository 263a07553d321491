"""C23: every report format shows the same query result."""
import json, re
from .core import *
from . import califmt as F

TECHNIQUE = "TLA+ definition of what each report format shows of a list of records (FormatSpec), its laws checked by TLC on small record lists (FormatMC); reports the library prints for random records and queries are parsed and checked against it by TLC (FormatTrace)"
NOTE = "Attributes with values in one entry of a record. JSON text is parsed by Python's parser (well-formedness), .cali by the library's reader (C13). Texts without control characters other than newline, newlines in JSON and .cali only. Records are those of the input (the rows of queries are C16)."

NESTED, ASVALUE, GLOBAL, HIDDEN = 256, 1, 512, 128
TYPE = {"s": "string", "i": "int", "u": "uint", "d": "double", "b": "bool", "a": "addr"}
PLAIN = ["main", "foo", "bar", "a b", "foo.bar", "x", "init", "a/b", "1", "true", "foo_with_a_rather_long_name_so_that_it_is_cut", "L" * 130]
ODD = ["f,1", "g=2", "q\"t", "b\\s", "\\n", "{}", "[1]", "\xc3\xa4\xc3\xb6", " lead", "trail ", "%d", "'", "\"", "\\", "a: b", "null", "path", "</x>", "a\\\"b"]


class Attr:
    def __init__(self, name, t, prop, alias=""):
        self.name, self.t, self.prop, self.alias = name, t, prop, alias
        self.hidden, self.nested, self.val, self.glob = bool(prop & HIDDEN), bool(prop & NESTED), bool(prop & ASVALUE), bool(prop & GLOBAL)


def text(a, v):
    """what the library shows of a value"""
    if a.t == "s":
        return v
    if a.t == "b":
        return "true" if v else "false"
    if a.t == "d":
        return v if isinstance(v, str) else "%.6f" % v
    if a.t == "a":
        return "%x" % v
    return str(v)


def stext(a, v):
    """what a stream says"""
    if a.t == "d":
        return v if isinstance(v, str) else "%g" % v if v != int(v) else "%d" % v
    return text(a, v)


def num(v):
    return {"inf": float("inf"), "-inf": float("-inf")}.get(v, v) if isinstance(v, str) else v


class Data:
    def __init__(self, r, nl):
        self.r, self.nl = r, nl
        odd = r.random() < .5
        nm = lambda s: s + (r.choice(["", "", " x", "#1", ".y", ",z", "\"q", "\\b", "=v", "\xc3\xa4"]) if odd else "")
        al = lambda: r.choice(["", "", "", "Title", "T 2", "a rather long title of a column", "q\"t", "x\\y"]) if r.random() < .7 else ""
        self.nested = [Attr(nm("function"), "s", NESTED, al()), Attr(nm("phase"), "i", NESTED), Attr(nm("loop"), "s", NESTED)][:r.choice([1, 2, 3])]
        self.refs = [Attr(nm("cfg"), "s", 0, al()), Attr(nm("rank"), "i", 0, al()), Attr(nm("h"), "s", HIDDEN), Attr(nm("where"), "a", 0)][:r.choice([0, 1, 2, 3, 4])]
        self.vals = [Attr(nm("t"), "d", ASVALUE, al()), Attr(nm("n"), "i", ASVALUE, al()), Attr(nm("u"), "u", ASVALUE), Attr(nm("name"), "s", ASVALUE, al()),
                     Attr(nm("flag"), "b", ASVALUE), Attr(nm("addr"), "a", ASVALUE), Attr(nm("hv"), "i", ASVALUE + HIDDEN)]
        r.shuffle(self.vals)
        self.vals = self.vals[:r.choice([0, 1, 3, 5, 7])]
        self.globs = [Attr(nm("gs"), "s", GLOBAL), Attr(nm("gi"), "i", GLOBAL + ASVALUE), Attr(nm("gd"), "d", GLOBAL + ASVALUE)][:r.choice([0, 1, 3])]
        self.attrs = self.nested + self.refs + self.vals + self.globs
        self.names = r.sample(PLAIN + (ODD if odd else []) + (["line1\nline2", "\n"] if nl else []), r.choice([2, 3, 6]))
        few = r.random() < .5
        self.recs = []
        path = [[self.entry(r.choice(self.nested), True) for _ in range(r.choice([0, 1, 2, 3, 4, 12] if r.random() < .1 else [0, 1, 2, 3, 4]))] for _ in range(r.choice([1, 3, 6]))]
        for _ in range(r.choice([0, 1, 2, 5, 12, 25])):
            p = r.choice(path)
            p = p[:r.randint(0, len(p))] if r.random() < .6 else list(p)
            chains = [p] if p else []
            for a in self.refs:
                g = [self.entry(a, few) for _ in range(r.choice([0, 0, 1, 1, 2]))]
                if g and chains and r.random() < .6:
                    c = r.choice(chains)
                    pos = 0
                    for e in g:
                        pos = r.randint(pos, len(c))
                        c.insert(pos, e)
                        pos += 1
                elif g:
                    chains.append(g)
            r.shuffle(chains)
            vs = [self.entry(a, few) for a in self.vals if r.random() < .7]
            r.shuffle(vs)
            self.recs.append((chains, vs))
        self.gv = []
        for g in self.globs:
            if g.val:
                if r.random() < .7:
                    self.gv.append([self.entry(g, False)])
            else:
                self.gv.append([self.entry(g, False) for _ in range(r.choice([0, 1, 1, 2]))])
        self.gv = [g for g in self.gv if g]

    def entry(self, a, few):
        r = self.r
        if a.t == "s":
            return a, "" if a.val and not few and r.random() < .1 else r.choice(self.names)
        if a.t == "b":
            return a, r.random() < .5
        if a.t == "d":
            if r.random() < .05:
                return a, r.choice(["inf", "-inf", "nan"])
            return a, (r.randint(0, 3) if few else r.randint(-4000, 4000)) / 16
        if a.t == "a":
            return a, r.choice([0, 10, 0xabc, 0x7fffffffffff])
        if a.t == "u":
            return a, r.randint(0, 3) if few else r.choice([0, 5, 1000000, 2 ** 63 + 1])
        return a, r.randint(-1, 2) if few else r.choice([-5, 0, 77, 123456, -2 ** 62])

    def stream(self):
        r = self.r
        lines, seen, nxt = [], {}, [12]

        def emit(key, attr, val, par):
            if key not in seen:
                seen[key] = nxt[0]
                nxt[0] += 1
                lines.append("__rec=node,id=%d,attr=%s,data=%s" % (seen[key], attr, F.cesc(val)) + (",parent=%s" % par if par is not None else ""))
            return seen[key]
        alias = Attr("attribute.alias", "s", 64)

        def attr(a):
            par, key = F.TID[TYPE[a.t]], ("T", a.t)
            if a.alias:
                key += ("A", a.alias)
                par = emit(key, attr(alias), a.alias, par)
            key += ("P", a.prop)
            par = emit(key, 10, str(a.prop), par)
            return emit(key + ("N", a.name), 8, a.name, par)

        def chain(es):
            key, par = (), None
            for a, v in es:
                key += ((a.name, stext(a, v)),)
                par = emit(key, attr(a), stext(a, v), par)
            return par
        order = list(self.attrs)
        r.shuffle(order)
        for a in order:
            attr(a)

        def rec(kind, chains, vs):
            ids = [chain(c) for c in chains]
            s = "__rec=" + kind
            if ids:
                s += ",ref=" + "=".join(map(str, ids))
            if vs:
                s += ",attr=" + "=".join(str(attr(a)) for a, v in vs) + ",data=" + "=".join(F.cesc(stext(a, v)) for a, v in vs)
            lines.append(s)
        for c, v in self.recs:
            rec("ctx", c, v)
        if self.gv:
            rec("globals", [g for g in self.gv if not g[0][0].val], [g[0] for g in self.gv if g[0][0].val])
        return "\n".join(lines) + "\n"

    def info(self):
        one, all_ = {}, {}
        recs = []

        def joined(chains, vs, a):
            es = [v for c in chains + [vs] for b, v in c if b is a]
            return "/".join(text(a, v) for v in es) if a.t == "s" else num(es[0]) if es else None
        val = lambda a, v: num(v)
        for a in self.attrs:
            one[a] = sorted({val(a, v) for c, vs in self.recs for b, v in sum(c, []) + vs if b is a and v != "nan"})
            all_[a] = sorted({x for c, vs in self.recs for x in [joined(c, vs, a)] if x is not None and x != "nan"})
        for chains, vs in self.recs:
            def en(a, v):
                j = joined(chains, vs, a)
                return [a.name, text(a, v), one[a].index(val(a, v)) if v != "nan" else 0,
                        F.cesc(stext(a, v)) if a.val else text(a, v), all_[a].index(j) if j != "nan" else 0]
            recs.append(dict(c=[[en(a, v) for a, v in c] for c in chains], v=[en(a, v) for a, v in vs]))
        return dict(attrs=[[a.name, dict(t=TYPE[a.t], nested=a.nested, hidden=a.hidden or a.glob, alias=a.alias)] for a in self.attrs],
                    recs=recs, globs=[[g[0][0].name, "/".join(text(a, v) for a, v in g)] for g in self.gv])

    def lit(self, s):
        r = self.r
        if s and all(c.isalnum() and c < "\x80" or c in "._#/" for c in s) and r.random() < .8:
            return s
        if r.random() < .5 and s:
            return "".join("\\" + c if not (c.isalnum() and c < "\x80") else c for c in s)
        return '"' + "".join("\\" + c if c in '"\\' else c for c in s) + '"'

    def query(self, fmt):
        r = self.r
        vis = [a for a in self.attrs if not a.hidden and not a.glob]
        nan = {a for c, vs in self.recs for a, v in sum(c, []) + vs if v == "nan"}
        q = dict(fmt=fmt, list=False, sel=[], order=[], width=60 if fmt == "table" else 48, paths=[], sep=False, quote=False, object=False, title="", fields=[])
        q["as"] = []
        parts, kw = [], []
        if fmt not in ("cali", "format") and vis and r.random() < .5:
            sel = r.sample(vis, r.randint(1, len(vis)))
            q["list"] = True
            q["sel"] = [a.name for a in sel]
            words = []
            for i, a in enumerate(sel):
                w = self.lit(a.name)
                if r.random() < .4:
                    t = r.choice(["As%d", "x y%d", "\"Q\"%d", "a\\b%d", "a very long title for this column %d"]) % i
                    q["as"].append([a.name, t])
                    w += r.choice([" AS ", " as "]) + self.lit(t)
                words.append(w)
            parts.append("SELECT " + ",".join(words))
        elif fmt in ("expand", "json", "json-split", "table", "tree") and r.random() < .2:
            parts.append("SELECT *")
        if fmt == "json":
            q["sep"], q["quote"], q["object"] = (r.random() < .4 for _ in range(3))
            kw = [k for k, f in (("separate-nested", q["sep"]), ("quote-all", q["quote"]), ("object", q["object"]), ("pretty", r.random() < .3),
                                 ("records", not q["object"] and r.random() < .2)) if f]
            r.shuffle(kw)
        if fmt in ("table", "tree"):
            if r.random() < .4:
                q["width"] = r.choice([1, 4, 5, 7, 12, 30, 100])
                kw.append("column-width=%d" % q["width"])
            ok = [a for a in vis if a not in nan]
            if ok and r.random() < .5:
                for a in r.sample(ok, 1 if fmt == "tree" else min(len(ok), r.choice([1, 1, 2]))):
                    up = r.random() < .5
                    q["order"].append([a.name, up])
            if fmt == "tree" and r.random() < .3:
                c = [a for a in self.nested + self.refs if not a.hidden and "," not in a.name and "=" not in a.name]
                if c:
                    q["paths"] = [a.name for a in r.sample(c, r.randint(1, len(c)))]
                    kw.append('"path-attributes=' + "".join("\\" + x if x in '"\\' else x for x in ",".join(q["paths"])) + '"')
        if fmt == "format":
            fs = ""
            for _ in range(r.randint(1, 5)):
                p, a = r.choice(["", "x ", "k: ", ", "]), r.choice(vis + [None]) if vis else None
                if a is not None and (set(a.name) & set("%[]=") or (a.t == "s" and a.val)):
                    a = None
                n = a.name if a else "nosuch"
                w = r.choice([0, 0, 3, 10, 20, 60])
                q["fields"].append([p, n if a else "", w])
                fs += p + "%" + ("[%d]" % w if w else "") + n + "%"
            if r.random() < .3:
                q["title"] = r.choice(["A title", "x"])
            kw = ['"' + "".join("\\" + x if x in '"\\' else x for x in fs) + '"'] + ([self.lit(q["title"])] if q["title"] else [])
        parts.append("FORMAT " + fmt + ("(" + ",".join(kw) + ")" if kw else ""))
        if q["order"]:
            parts.append("ORDER BY " + ",".join(self.lit(n) + ((" asc" if r.random() < .3 else "") if up else " desc") for n, up in q["order"]))
        r.shuffle(parts)
        return q, " ".join(parts)


FMTS = ["table", "tree", "json", "json-split", "expand", "format", "cali"]


def scenarios(run, n):
    out = []
    for i in range(n):
        r = run.rng
        nl = r.random() < .2
        d = Data(r, nl)
        L = [["text", "0", esc(d.stream().encode("latin-1"))], ["load", "0"], ["finfo", esc(json.dumps(d.info()))]]
        for f in (["json", "json-split", "cali"] * 2 if nl else FMTS + ["table", "tree", "tree", "json"]):
            q, text = d.query(f)
            L.append(["fmt", f, esc(json.dumps(q)), esc(text.encode("latin-1"))])
        out.append(("f%d" % i, L))
    return out


class Num(str):
    pass


def pairs(p):
    return ("obj", p)


def atom(v):
    return ["d", str(v)] if isinstance(v, Num) else ["b", "true" if v else "false"] if isinstance(v, bool) else ["s", v] if isinstance(v, str) else ["?", repr(v)]


def parse_json(t, split):
    """rows of [key, kind, text], globals, attributes; a ValueError where it is not a JSON document of the expected form"""
    def bad(c):
        raise ValueError("constant " + c)
    j = json.loads(t, object_pairs_hook=pairs, parse_int=Num, parse_float=Num, parse_constant=bad)
    if not split:
        globs, attrs = [], []
        if isinstance(j, tuple):
            top = dict(j[1])
            globs = [[k, v] for k, v in top["globals"][1]]
            attrs = [[k, dict(v[1])["is_nested"], {kk: vv for kk, vv in v[1]}] for k, v in top["attributes"][1]]
            if len({a[0] for a in attrs}) != len(attrs):
                raise ValueError("attribute described twice")
            attrs = [a[:2] for a in attrs]
            j = top["records"]
        return [[[k] + atom(v) for k, v in row[1]] for row in j], globs, attrs
    if not isinstance(j, tuple):
        raise ValueError("no object")
    top = dict(j[1])
    cols, nodes = top["columns"], [dict(n[1]) for n in top["nodes"]]
    isval = [dict(m[1])["is_value"] for m in top["column_metadata"]]
    if len(cols) != len(isval):
        raise ValueError("column_metadata")
    rows = []
    for row in top["data"]:
        if len(row) != len(cols):
            raise ValueError("row length")
        out = []
        for c, iv, v in zip(cols, isval, row):
            if v is None:
                continue
            if iv:
                out.append([c] + atom(v))
            else:
                p, k = [], int(v)
                while k is not None:
                    nd = nodes[k]
                    if nd["column"] != c:
                        p.insert(0, "<node of column %s>" % nd["column"])
                    p.insert(0, nd["label"])
                    par = nd.get("parent")
                    k = int(par) if par is not None else None
                out.append([c, "n", "/".join(p)])
        rows.append(out)
    return rows, [[k, v] for k, v in j[1] if k not in ("data", "columns", "column_metadata", "nodes")], []


def post(sid, evs):
    out = []
    for e in evs:
        if e["e"] == "load":
            continue
        if e["e"] == "fmt":
            e["wf"] = True
            e.setdefault("globs", [])
            e["attrs"] = []
            f, t = e.pop("f"), e.pop("t", None)
            if f.startswith("json"):
                try:
                    e["x"], e["globs"], e["attrs"] = parse_json(t, f == "json-split")
                except (ValueError, KeyError, TypeError, IndexError) as x:
                    e["wf"], e["x"], e["err"], e["t"] = False, [], repr(x), t
            elif t is not None:
                e["x"] = [l.rstrip(" ") for l in t.split("\n")]
                if e["x"][-1] == "":
                    e["x"].pop()
        out.append(e)
    return out


def check(run):
    b = build(["query"], extra_flags=["-I" + os.path.join(DRIVERS, "fakempi")])
    run.say("built")
    run.check(b["query"], scenarios(run, run.scale(400, 8000)), "FormatTrace", "FormatTrace.cfg", post=post)
