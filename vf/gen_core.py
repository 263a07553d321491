"""Random annotation programs. The stacks kept here only steer the generator (which ends are valid); the
specification is the oracle."""

NVALS = {"string": 30, "int": 30, "uint": 30, "double": 30, "bool": 2, "addr": 4, "usr": 30}

KINDS = ["nested", "nested", "nested", "default", "asvalue", "asvalue", "asvalue,hidden", "unaligned", "unaligned",
         "process,nested", "process", "process,asvalue", "process,asvalue,hidden", "process,unaligned", "global",
         "asvalue,skip", "nested,skip", "unaligned,skip", "global,asvalue", "thread,unaligned,nested"]


class Attr:
    def __init__(self, i, type, props, default_scope="thread"):
        self.i, self.type, self.props = i, type, props
        p = set(props.split(","))
        self.val = "asvalue" in p
        self.proc = "process" in p or "global" in p or (default_scope == "process" and "thread" not in p)
        self.una = "unaligned" in p or "global" in p


class Core:
    def __init__(self, rng, nthreads=1, default_scope=None, maxval=30):
        self.r = rng
        self.lines = []
        self.attrs = {}
        self.nt = nthreads
        self.scope = default_scope or "thread"
        if default_scope:
            self.lines.append("ENV CALI_CALIPER_ATTRIBUTE_DEFAULT_SCOPE " + default_scope)
        self.reg, self.una, self.imm = {}, {}, {}
        self.maxval = maxval
        self.vias = "pppcnra"
        self.noset = False
        self.only = None    # attributes to use in step()

    def attr(self, type=None, props=None, name=None, near=None, dist=0):
        i = len(self.attrs) + 1
        if name and name[0] == "@":
            self.attrs[i] = Attr(i, "string", "nested", self.scope)
            self.lines.append("A %d %s string nested" % (i, name))
            return i
        type = type or self.r.choice(["string", "string", "int", "int", "double", "uint", "bool", "addr"])
        props = props or self.r.choice(KINDS)
        if "asvalue" in props and type in ("usr",):
            type = "int"
        self.attrs[i] = Attr(i, type, props, self.scope)
        self.lines.append("A %d %s %s %s%s" % (i, name or "attr.%d" % i, type, props,
                                                "" if near is None else " %d %d" % (near, dist)))
        return i

    def key(self, t, a):
        return 0 if self.attrs[a].proc else t

    def value(self, a):
        return self.r.randint(1, min(self.maxval, NVALS[self.attrs[a].type]))

    def via(self):
        return self.r.choice(self.vias)

    def begin(self, t, a, v=None):
        k, A = self.key(t, a), self.attrs[a]
        v = v or self.value(a)
        self.lines.append("begin %d %d %d %s" % (t, a, v, self.via()))
        if A.val:
            self.imm.setdefault(k, {})[a] = v
        else:
            (self.una if A.una else self.reg).setdefault(k, []).append((a, v))

    def set(self, t, a, v=None):
        k, A = self.key(t, a), self.attrs[a]
        v = v or self.value(a)
        self.lines.append("set %d %d %d %s" % (t, a, v, self.via()))
        if A.val:
            self.imm.setdefault(k, {})[a] = v
        else:
            q = (self.una if A.una else self.reg).setdefault(k, [])
            for i in range(len(q) - 1, -1, -1):
                if q[i][0] == a:
                    del q[i]
                    break
            q.append((a, v))

    def endable(self, t):
        out = []
        for k in (t, 0):
            if self.reg.get(k):
                out.append(self.reg[k][-1])
            seen = set()
            for a, v in reversed(self.una.get(k, [])):
                if a not in seen:
                    seen.add(a)
                    out.append((a, v))
            out += list(self.imm.get(k, {}).items())
        return out

    def end(self, t, a, v=None):
        k, A = self.key(t, a), self.attrs[a]
        if v:
            self.lines.append("endchk %d %d %d %s" % (t, a, v, self.via()))
        else:
            self.lines.append("end %d %d %s" % (t, a, self.via()))
        if A.val:
            self.imm.get(k, {}).pop(a, None)
        else:
            q = (self.una if A.una else self.reg).get(k, [])
            for i in range(len(q) - 1, -1, -1):
                if q[i][0] == a:
                    del q[i]
                    break

    def depth(self, t):
        return sum(len(self.reg.get(k, [])) + len(self.una.get(k, [])) + len(self.imm.get(k, {})) for k in (0, t))

    def step(self, maxdepth=30, p_get=0.15):
        r = self.r
        t = r.randint(1, self.nt)
        x = r.random()
        en = self.endable(t)
        pool = self.only or list(self.attrs)
        if x < 0.02 and not self.only:
            self.lines.append("cur %d" % t)
        elif x < p_get:
            self.lines.append("get %d %d %s" % (t, r.choice(pool), r.choice("pc")))
        elif x < p_get + 0.15 and not self.noset:
            self.set(t, r.choice(pool))
        elif en and (self.depth(t) > maxdepth or x < 0.62):
            a, v = r.choice(en)
            self.end(t, a, v if r.random() < 0.4 else None)
        else:
            self.begin(t, r.choice(pool))

    def bad_step(self):
        """A call that is (most likely) not properly nested."""
        r = self.r
        t = r.randint(1, self.nt)
        a = r.choice(list(self.attrs))
        x = r.random()
        if x < 0.5:
            self.lines.append("end %d %d %s" % (t, a, self.via()))
        else:
            en = self.endable(t)
            if en and r.random() < 0.7:
                a, v = r.choice(en)
            w = self.value(a)
            self.lines.append("endchk %d %d %d %s" % (t, a, w, self.via()))
