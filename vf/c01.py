"""C01: region and attribute context follows stack semantics."""
TECHNIQUE = "TLA+ model (CaliperCore) checked with TLC; programs from every model transition plus random, collision, wide and deep programs run on the library and validated against the specification by TLC"
NOTE = "Exhaustive on the small model; every recorded call of the executed programs is explained by the specification (context, path, get, notifications after each call). Programs outside those generated are not covered."
import json, os, re
from .core import *
from .gen_core import Core, KINDS


def programs_from_model(run, module, cfg, attr_lines, limit, tag="gen", rng=None):
    """One program per transition of the model's state graph (TLC prints them)."""
    rc, out, gen, dist = run.tlc(module, cfg, env={"VF_PRINT": "1"}, workers=1, heap="6g", tag=tag)
    if rc:
        raise ToolError("program generation failed:\n" + out[-3000:])
    progs = sorted(set(re.findall(r'"PROG (\[.*\])"', out)), key=lambda s: (-len(s), s))
    run.states += dist
    run.transitions += gen
    run.exhaustive_models.append("%s/%s: %d distinct states, %d transitions (program generation)" % (module, cfg, dist, gen))
    total = len(progs)
    # a program that is a prefix of another one adds nothing: it is executed as part of it
    full, seen = [], set()
    for p in progs:
        p = json.loads(p.replace('\\"', '"'))
        k = json.dumps(p)
        if k in seen:
            continue
        for i in range(1, len(p) + 1):
            seen.add(json.dumps(p[:i]))
        full.append(p)
    if limit and len(full) > limit:
        full = (rng or run.rng).sample(full, limit)
    return full, total


def model_scenarios(run, progs, attr_lines, per=12, prefix="m"):
    return [("%s%d" % (prefix, i), attr_lines + [" ".join(str(x) for x in op) for op in p]) for i, p in enumerate(progs)]


# kind number -> attribute properties (KindOf in CoreMC.tla)
KIND_PROPS = {1: ("string", "nested"), 2: ("int", "asvalue"), 3: ("int", "asvalue,hidden"), 4: ("string", "process,nested"),
              5: ("string", "unaligned"), 6: ("double", "process,unaligned"), 7: ("string", "skip"), 0: ("string", "default")}


def attrs_for(kinds):
    return ["A %d m.%d %s %s" % (i + 1, i + 1, *KIND_PROPS[k]) for i, k in enumerate(kinds)]


def random_programs(run, n, length, threads=1):
    out = []
    for i in range(n):
        r = run.rng
        p = Core(r, threads, default_scope=r.choice([None, None, None, "process"]), maxval=r.choice([3, 6, 30]))
        if r.random() < 0.5:
            for s in r.sample(["@region", "@phase", "@comm", "@loop"], r.randint(1, 3)):
                p.attr(name=s)
        for _ in range(r.randint(2, 9)):
            p.attr()
        for _ in range(length):
            p.step()
        for t in range(1, threads + 1):
            p.lines.append("ctx %d" % t)
        out.append(("r%d" % i, p.lines))
    return out


def collision_programs(run, n, length):
    """As-value attributes (hidden and visible mixed) whose ids collide in the context store."""
    out = []
    for i in range(n):
        r = run.rng
        p = Core(r, 1, maxval=30)
        anchor = r.choice([0, 1, 2, 3, 500, 1016, 1018, 1019, 1020])
        p.attr("string", "nested")
        p.attr("string", "unaligned")
        if r.random() < 0.6:
            first = p.attr("int", r.choice(["asvalue", "asvalue,hidden"]), near=-1, dist=anchor)
        else:
            first = p.attr("int", "asvalue")
        for k in range(r.randint(3, 8)):
            scope = r.choice(["", "", "", "process,"])
            p.attr(r.choice(["int", "double", "uint"]), scope + r.choice(["asvalue", "asvalue", "asvalue,hidden"]),
                   near=first, dist=r.choice([0, 0, 0, 1, 2, -1, 3]))
        for _ in range(length):
            p.step(maxdepth=14, p_get=0.2)
        out.append(("c%d" % i, p.lines))
    return out


def wide_programs(run, n, count):
    """Hundreds of attributes alive at once (below the store's capacity)."""
    out = []
    for i in range(n):
        r = run.rng
        p = Core(r, 1, maxval=30)
        p.lines.append("OPT noctx")
        p.attr("string", "nested")
        ids = [p.attr(r.choice(["int", "double"]), r.choice(["asvalue", "asvalue,hidden"])) for _ in range(count)]
        r.shuffle(ids)
        alive = []
        for a in ids:
            p.begin(1, a)
            alive.append(a)
            if r.random() < 0.25:
                b = alive.pop(r.randrange(len(alive)))
                p.end(1, b)
            if r.random() < 0.3:
                p.lines.append("get 1 %d" % r.choice(ids))
            if r.random() < 0.05:
                p.begin(1, 1)
        for a in r.sample(ids, min(len(ids), 400)):
            p.lines.append("get 1 %d" % a)
        r.shuffle(alive)
        while len(alive) > 90:
            p.end(1, alive.pop())
        p.lines.append("ctx 1")
        while alive:
            p.end(1, alive.pop())
            if r.random() < 0.1:
                p.lines.append("get 1 %d" % r.choice(ids))
                p.lines.append("ctx 1")
        p.lines.append("ctx 1")
        out.append(("w%d" % i, p.lines))
    return out


def deep_programs(run, n, depth):
    out = []
    for i in range(n):
        r = run.rng
        p = Core(r, 1, maxval=30)
        p.lines.append("OPT noctx")
        na = [p.attr("string", "nested"), p.attr("int", "nested"), p.attr("string", "default")]
        ua = [p.attr("string", "unaligned"), p.attr("int", "unaligned"), p.attr("int", "unaligned")]
        for k in range(depth):
            p.begin(1, r.choice(na + ua))
            if k % 37 == 0:
                p.lines += ["ctx 1", "path 1", "get 1 %d" % r.choice(na + ua)]
        while p.endable(1):
            en = p.endable(1)
            a, v = r.choice(en)
            p.end(1, a, v if r.random() < 0.5 else None)
            if r.random() < 0.05:
                p.lines += ["ctx 1", "path 1", "get 1 %d" % r.choice(na + ua)]
        p.lines.append("ctx 1")
        out.append(("d%d" % i, p.lines))
    return out


def check(run):
    b = build(["core"])
    run.say("built")
    run.model_check("CoreMC", "CoreMC_ctx.cfg", env={"VF_PRINT": "0"}, min_states=500)
    progs, total = programs_from_model(run, "CoreMC", "CoreMC_gen.cfg", None, run.scale(250, 3000))
    run.cov["model_transitions_as_programs"] = total
    run.say("design check done: %s" % run.exhaustive_models)
    kinds = [1, 2, 5, 4]
    sc = model_scenarios(run, progs, attrs_for(kinds))
    sc += random_programs(run, run.scale(60, 900), run.scale(70, 120))
    sc += collision_programs(run, run.scale(40, 500), 60)
    sc += wide_programs(run, run.scale(3, 16), run.scale(500, 880))
    sc += deep_programs(run, run.scale(6, 40), run.scale(120, 400))
    run.check(b["core"], sc, "CoreTrace", "CoreTrace.cfg")
    run.assumptions += ["context stores hold at most 909 values and snapshots 120 entries (Caliper's documented limits)",
                        "string values of as-value attributes stay valid while they are set"]
