"""The .cali text format: an independent tokenizer, generators of streams, and damage."""
import struct

HIDDEN, GLOBAL, ASVALUE = 128, 512, 1
BOOT = {"0": ("9", "usr"), "1": ("9", "int"), "2": ("9", "uint"), "3": ("9", "string"), "4": ("9", "addr"),
        "5": ("9", "double"), "6": ("9", "bool"), "7": ("9", "type"), "11": ("9", "ptr"),
        "8": ("8", "cali.attribute.name"), "9": ("8", "cali.attribute.type"), "10": ("8", "cali.attribute.prop")}
BOOTPARENT = {"8": "3", "9": "7", "10": "1"}
TYPES = ("usr", "int", "uint", "string", "addr", "double", "bool", "type", "ptr")


def pct(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    ok = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.#-:"
    return "".join(chr(c) if c in ok else "%%%02X" % c for c in b)


def dhex(x):
    return "dnan" if x != x else "d%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]


def vtext(typ, s):
    """canonical text of the value spelled s in a .cali stream; '-' if it cannot be read"""
    try:
        if typ == "string":
            return "s" + pct(s)
        if typ == "int":
            return "i%d" % int(s)
        if typ == "uint":
            return "u%d" % int(s) if s.isdigit() else "-"
        if typ == "addr":
            return "a%016x" % int(s, 16)
        if typ == "double":
            return dhex(float(s))
        if typ == "bool":
            return {"true": "b1", "false": "b0"}.get(s, "-")
        if typ == "type":
            return "t" + s if s in TYPES else "-"
        if typ == "usr":
            return "U"
    except ValueError:
        pass
    return "-"


def split_fields(line):
    """[(key, [values])] of a well-formed line"""
    fields, cur, esc = [[""]], None, False
    for ch in line:
        if esc:
            fields[-1][-1] += "\n" if ch == "n" else ch
            esc = False
        elif ch == "\\":
            esc = True
        elif ch == ",":
            fields.append([""])
        elif ch == "=":
            fields[-1].append("")
        else:
            fields[-1][-1] += ch
    return [(f[0], f[1:]) for f in fields]


class Reader:
    """Tokenizes the lines of one stream and finds the types needed to spell the values."""

    def __init__(self):
        self.tab = {}

    def node(self, i):
        if i in self.tab:
            return self.tab[i]
        if i in BOOT:
            a, v = BOOT[i]
            return (a, BOOTPARENT.get(i, ""), v)
        return None

    def chain(self, i, attr):
        n = self.node(i)
        k = 0
        while n and k < 10000:
            if n[0] == attr:
                return n[2]
            n = self.node(n[1]) if n[1] else None
            k += 1
        return None

    def props(self, i):
        p = self.chain(i, "10")
        try:
            return int(p) if p is not None else 0
        except ValueError:
            return 0

    def value(self, attr, s):
        if self.node(attr) is None:
            return "-"
        return vtext(self.chain(attr, "9") or "", s)

    def line(self, text):
        f = split_fields(text)
        bad = dict(x="bad")
        if f[0][0] != "__rec" or len(f[0][1]) != 1:
            return bad
        kind = f[0][1][0]
        d = {}
        for k, v in f[1:]:
            if k not in ("id", "attr", "data", "parent", "ref") or k in d:
                return bad
            d[k] = v
        if kind == "node":
            if "id" not in d or "attr" not in d or "ref" in d or any(len(d[k]) != 1 for k in d):
                return bad
            i, a, p, s = d["id"][0], d["attr"][0], d.get("parent", [""])[0], d.get("data", [""])[0]
            if not i.isdigit() or not a.isdigit() or ("parent" in d and not p.isdigit()):
                return bad
            hid = bool(self.props(a) & HIDDEN) if self.node(a) else False
            v = "U" if hid else self.value(a, s)
            known = self.node(a) is not None and self.node(a)[0] == "8" and (not p or self.node(p) is not None) and v != "-"
            if known and i not in self.tab:
                self.tab[i] = (a, p, s)
            pr = self.props(i) if known and a == "8" else 0
            return dict(x="node", id=i, attr=a, par=p, v=v, g=int(bool(pr & GLOBAL)), av=int(bool(pr & ASVALUE)))
        if kind in ("ctx", "globals"):
            if "id" in d or "parent" in d:
                return bad
            refs, at, da = d.get("ref", []), d.get("attr", []), d.get("data", [])
            if not all(r.isdigit() for r in refs + at):
                return bad
            n = min(len(at), len(da))
            return dict(x=kind, refs=refs, at=at[:n], vals=[self.value(a, s) for a, s in zip(at, da)][:n], eq=int(len(at) == len(da)))
        return bad


def tokenize(text, kind):
    """text: str of latin-1 bytes. Returns line events; kind 'cut': the last line may be incomplete."""
    out = []
    r = Reader()
    lines = text.split("\n")
    last = lines.pop()
    for ln in lines:
        if ln:
            out.append(r.line(ln))
    if last:
        out.append(dict(r.line(last)) if kind != "cut" else dict(x="cut"))
    return out


def expand(sid, evs):
    """replaces text events by line events"""
    out = []
    for e in evs:
        if e["e"] == "text":
            kind = e["kind"]
            out.append(dict(e="stream", k=e["k"], kind=kind))
            if kind != "opaque":
                for ln in tokenize(e["t"], kind):
                    out.append(dict(ln, e="line", k=e["k"]))
        else:
            out.append(e)
    return out


# ---------------------------------------------------------------- generation

def cesc(b):
    """escapes a string (latin-1 str) the way the format asks for"""
    return "".join("\\n" if c == "\n" else "\\" + c if c in "\\,=" else c for c in b)


STR = ["foo", "bar", "", "a,b", "x=y", "c\\d", "line1\nline2", "\"q\"", "with space", " lead", "trail ", "\\", ",", "=", "\n",
       "a\\n", "\\\\", "\xc3\xa4\xc3\xb6", "\xff", "L" * 300, "a=b,c\\=d", "{\"a\":1}", "[1,2]", "'", "#", "%41", "ab", "abc", "abcd", "n"]


def rstr(r):
    if r.random() < .7:
        return r.choice(STR)
    return "".join(r.choice("ab,=\\n\n\"' /#%{}[]:;\xc3\xa4\x7f\xff") for _ in range(r.randint(0, 12)))


def rdouble(r):
    x = r.random()
    if x < .3:
        return r.choice([0.0, -0.0, 1.0, 0.1, -1.5, 1e300, 5e-324, 1.7976931348623157e308, 1e10, 123456.7, 1234567.25, 1 / 3, float("inf"), float("-inf"), float("nan"), 2.0 ** 53 + 2])
    if x < .6:
        return r.uniform(-1e6, 1e6)
    y = struct.unpack(">d", struct.pack(">Q", r.getrandbits(64)))[0]
    return y


def rvalue(r, typ):
    """(driver token, .cali text) of a random value"""
    if typ == "string":
        s = rstr(r)
        return "s:" + s, cesc(s)
    if typ == "int":
        v = r.choice([0, 1, -1, 42, 2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63, r.getrandbits(63) - 2 ** 62, r.randint(-100, 100)])
        return "i:%d" % v, str(v)
    if typ == "uint":
        v = r.choice([0, 1, 42, 2 ** 32, 2 ** 64 - 1, r.getrandbits(64), r.randint(0, 100)])
        return "u:%d" % v, str(v)
    if typ == "addr":
        v = r.choice([0, 0x1000, 2 ** 64 - 1, r.getrandbits(48)])
        return "a:%x" % v, "%x" % v
    if typ == "double":
        v = rdouble(r)
        return "d:%016x" % struct.unpack(">Q", struct.pack(">d", v))[0], repr(v)
    if typ == "bool":
        v = r.random() < .5
        return "b:%d" % v, "true" if v else "false"
    if typ == "type":
        v = r.choice(["int", "double", "string", "uint", "bool", "type", "addr"])
        return "t:" + v, v
    raise ValueError(typ)


VT = ["string", "int", "uint", "double", "bool", "addr", "type"]
TID = {v: k for k, (a, v) in BOOT.items() if a == "9"}


class World:
    """abstract attributes, nodes and records shared by several streams"""

    def __init__(self, r, nattr, nnode, nrec, hidden=True, props=None):
        self.r = r
        self.attrs = []      # (name, type, prop, [(attr index, value text)])
        self.nodes = []      # (attr index, value text, parent index or None)
        self.recs = []       # ([node index], [(attr index, value text)])
        self.globs = []
        for i in range(nattr):
            t = r.choice(VT + ["string", "int"])
            p = r.choice([0, 0, 64, 256, 20, 276, ASVALUE, ASVALUE, 65, ASVALUE | 2048, GLOBAL, GLOBAL | ASVALUE, 2, 65536 + 256])
            if hidden and r.random() < .05:
                p |= HIDDEN
            meta = []
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                m = [j for j in range(i) if not self.attrs[j][2] & (ASVALUE | HIDDEN)]
                if m:
                    j = r.choice(m)
                    meta.append((j, rvalue(r, self.attrs[j][1])[1]))
            nm = r.choice(["attr%d" % i, "a.b#%d" % i, rstr(r) + str(i), "n%d" % (i % 3)])
            self.attrs.append((nm, t, p, meta))
        refs = [i for i in range(nattr) if not self.attrs[i][2] & ASVALUE]
        asv = [i for i in range(nattr) if self.attrs[i][2] & ASVALUE]
        for i in range(nnode):
            if refs:
                a = r.choice(refs)
                self.nodes.append((a, rvalue(r, self.attrs[a][1])[1], r.choice([None] + list(range(i))[-4:]) if i else None))
        for i in range(nrec):
            ns = [r.randrange(len(self.nodes)) for _ in range(r.choice([0, 1, 1, 1, 2, 4]))] if self.nodes else []
            im = [(a, rvalue(r, self.attrs[a][1])[1]) for a in (r.choice(asv) for _ in range(r.choice([0, 0, 1, 2, 5])))] if asv else []
            self.recs.append((ns, im))
        gs = [a for a in asv if self.attrs[a][2] & GLOBAL]
        for a in gs:
            if r.random() < .7:
                self.globs.append((a, rvalue(r, self.attrs[a][1])[1]))

    def stream(self, r, recs, ids=None, globs=True):
        """lines of a stream with the given records, using fresh ids in the order of need"""
        lines = []
        pool = iter(ids) if ids else None
        nxt = [r.choice([12, 12, 20, 100, 1000])]
        seen = {}

        def fresh():
            if pool is not None:
                return next(pool)
            nxt[0] += r.choice([1, 1, 1, 2, 7])
            return nxt[0] - 1

        def emit(key, attr, val, par):
            if key in seen:
                return seen[key]
            i = fresh()
            seen[key] = i
            f = ["id=%s" % i, "attr=%s" % attr, "data=" + val]
            if par is not None:
                f.append("parent=%s" % par)
            lines.append("__rec=node," + ",".join(f))
            return i

        def attr(a):
            nm, t, p, meta = self.attrs[a]
            par, key = TID[t], ("T", t)
            for m, v in meta:
                key = key + (m, v)
                par = emit(key, attr(m), v, par)
            key = key + ("P", p)
            par = emit(key, 10, str(p), par)
            return emit(key + ("N", nm), 8, cesc(nm), par)

        def node(n):
            a, v, p = self.nodes[n]
            pp = None if p is None else node(p)
            ai = attr(a)
            return emit(("node", pp, ai, v), ai, v, pp)
        for ns, im in recs:
            refs = [node(n) for n in ns]
            at = [attr(a) for a, v in im]
            s = "__rec=ctx"
            if refs:
                s += ",ref=" + "=".join(map(str, refs))
            if at:
                s += ",attr=" + "=".join(map(str, at)) + ",data=" + "=".join(v for a, v in im)
            lines.append(s)
        if globs:
            gn = [node(n) for n in range(len(self.nodes)) if self.attrs[self.nodes[n][0]][2] & GLOBAL]
            ga = [(attr(a), v) for a, v in self.globs]
            s = "__rec=globals"
            if gn:
                s += ",ref=" + "=".join(map(str, gn))
            if ga:
                s += ",attr=" + "=".join(str(a) for a, v in ga) + ",data=" + "=".join(v for a, v in ga)
            lines.append(s)
        return lines
