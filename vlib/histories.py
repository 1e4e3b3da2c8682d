"""Turns the histories TLC prints into stimuli for the driver."""
import json
import os
import random

TREE = [{"v": False, "f": 0, "z": 1, "o": 2}, {"v": True, "f": 0, "z": -1, "o": -1},
        {"v": False, "f": 0, "z": -1, "o": -1}]

ALPHABETS = [
    ({}, {}, {}),
    ({"x": "v", "y": "v1", "z": "v11"}, {"c": "1", "d": "11"}, {0: 1, 1: 11}),
    ({"x": "a", "y": "ac", "z": "aca"}, {"c": "c", "d": "ca"}, {0: 0, 1: 10}),
    ({"x": "x", "y": "x0", "z": "0"}, {"c": "x", "d": "0"}, {0: 0, 1: 100}),
]


def produce(module, config, work, tlc, extra, CheckError, workers=1):
    out = os.path.join(work, "hist-%s.csv" % config.replace(".cfg", ""))
    if os.path.exists(out):
        os.unlink(out)
    code, text, gen, dist = tlc(module, config, work, env={"OUT": out}, workers=workers, extra=extra)
    if code != 0 or not os.path.exists(out):
        raise CheckError("TLC made no histories with %s:\n%s" % (config, text[-3000:]))
    hs = []
    with open(out) as f:
        for line in f:
            line = line.strip()
            if line:
                h = json.loads(line)
                hs.append(json.loads(h) if isinstance(h, str) else h)
    os.unlink(out)
    return hs, gen, dist


def sample(hs, n, rnd):
    if len(hs) <= n:
        return hs
    return [hs[i] for i in sorted(rnd.sample(range(len(hs)), n))]


SEPARATORS = ["", " ", "_", "-", ".", ",", ":", ";", "/", "|", "#", "@", "+", "=", "\t", "\x00", "\x1e", "::", "->"]


def alphabet(rnd):
    """Names that are easily mistaken for each other."""
    k = rnd.randrange(len(ALPHABETS) + 2)
    if k < len(ALPHABETS):
        return ALPHABETS[k]
    # a variable named like another one with a position written after it
    s = rnd.choice(SEPARATORS)
    u = s if rnd.random() < 0.6 else rnd.choice(SEPARATORS)
    full = rnd.choice(["x%sc%s0", "x%sc%s0", "c%s0%sx", "x%s0%sc"]) % (s, u)
    return ({"y": full, "z": rnd.choice(["x%sc" % s, "x%s0" % s, "x%s " % s])}, {"d": rnd.choice(["0", "c%s0" % u])}, {})


def rename(ops, a, far=1):
    """far: positions this far from each other."""
    v, t, i = a
    out = []
    for o in ops:
        o = dict(o)
        if "v" in o:
            o["v"] = v.get(o["v"], o["v"])
        if "t" in o:
            o["t"] = t.get(o["t"], o["t"])
        if o["op"] in ("open", "setscope", "cnfvar"):
            o["i"] = i.get(o["i"], o["i"]) * far
        out.append(o)
    return out


FAR = [10, 64, 128, 256, 1000, 2**15, 2**16, 2**20, 2**24, 2**31, 2**32]
TOPS = [100, 250, 32764, 65530, 2**24 - 4, 2**31 - 6, 2**32 - 5]
RULES = {"C08": ["scope"], "C09": ["num"], "C10": ["same"], "C23": ["scope", "num"]}


def contexts(prop, seed, tier, work, tlc, CheckError):
    two = prop == "C23"
    rnd = random.Random(seed)
    base = "GenContext2" if two else "GenContext"
    quick = tier != "thorough"
    hs, g1, d1 = produce("GenContext", base + ("" if quick else "T") + ".cfg", work, tlc, (), CheckError)
    total = len(hs)
    hs = sample(hs, 4000 if quick else 60000, rnd)
    num = 400 if quick else 4000
    sims, g2, d2 = produce("GenContext", base + "Sim.cfg", work, tlc,
                           ("-simulate", "num=%d" % num, "-depth", "32", "-seed", str(seed)), CheckError)
    hs += sample(sims, num, rnd)
    stims = []
    for n, h in enumerate(hs):
        k = alphabet(rnd)
        v, t, _ = k
        far = rnd.choice(FAR) if rnd.random() < 0.2 else 1
        ops, frm = rename(h, k, far), 0
        if rnd.random() < 0.12:  # reservations far up
            up = rnd.choice(TOPS)
            for o in ops:
                if o["op"] == "updatetop":
                    o["i"] += rnd.choice([0, up])
        if prop == "C10":  # a history, a reset, and another one on two contexts
            ops.append({"op": "reset", "c": 1})
            frm = len(ops)
            ops += rename(hs[rnd.randrange(len(hs))], k, far)
        stims.append({"id": "H-%d" % n, "rules": RULES[prop], "kind": "ctx", "d": 2, "tree": TREE, "style": 0,
                      "ops": ops, "from": frm,
                      "vars": [v.get(x, x) for x in ("x", "y", "z")],
                      "tgts": [t.get(x, x) for x in ("c", "d")],
                      "tag": "history made by TLC"})
    return stims, g1 + g2, d1 + d2


def clause(rnd, n, big):
    k = rnd.choice([0, 1, 1, 2, 2, 2, 3, 3, 4] if big else [1, 1, 2, 2, 2, 3, 3])
    if k > 1 and rnd.random() < 0.15:  # a tautology, or a literal twice
        v = rnd.choice((1, -1)) * rnd.randint(1, n)
        cl = [rnd.choice((v, -v)), -v] + [rnd.choice((1, -1)) * rnd.randint(1, n) for _ in range(k - 2)]
        rnd.shuffle(cl)
        return cl
    return [rnd.choice((1, -1)) * rnd.randint(1, n) for _ in range(k)]


def clauses(rnd, n):
    if rnd.random() < 0.06:
        return []
    k = rnd.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7])
    return [clause(rnd, n, rnd.random() < 0.25) for _ in range(k)]


def many(rnd, n):
    """Long lists and long clauses."""
    k = rnd.choice([1, 9, 17, 33, 65, 100, 129, 257, 400])
    if rnd.random() < 0.12:
        k = rnd.choice([520, 1030, 2060, 4100])
    m = rnd.choice([2, 3]) if k > 500 else rnd.choice([2, 5, 9, 17, 40]) if k > 20 else rnd.choice([9, 17, 33, 65, 200])
    cls = []
    for _ in range(k):
        cl = [rnd.choice((1, -1)) * rnd.randint(1, n) for _ in range(rnd.randint(1, m))]
        if rnd.random() < 0.97:  # mostly tautologies, or the list is false
            v = rnd.randint(1, n)
            cl[rnd.randrange(len(cl))] = v
            cl.insert(rnd.randint(0, len(cl)), -v)
        cls.append(cl)
    return cls


CNFRULES = {"C11": ["mean"], "C12": ["value"], "C13": ["dimacs"]}


def formulas(prop, seed, tier, work, tlc, CheckError):
    rnd = random.Random(seed * 31 + int(prop[1:]))
    quick = tier != "thorough"
    hs, g1, d1 = produce("GenFormulas", "GenFormulas.cfg", work, tlc, (), CheckError)
    hs = sample(hs, 3000 if quick else 57024, rnd)
    num = 1200 if quick else 12000
    sims, g2, d2 = produce("GenFormulas", "GenFormulasSim.cfg", work, tlc,
                           ("-simulate", "num=%d" % num, "-depth", "16", "-seed", str(seed)), CheckError)
    hs += sims
    stims = []
    for i, h in enumerate(hs):
        n = rnd.choice([2, 3, 3, 4])
        big = rnd.random() < 0.03
        wide = rnd.random() < 0.06
        huge = rnd.random() < 0.3 and [2**31 - 9, 2**31, 2**32 - 9, 2**32]
        pad = rnd.random() < 0.5  # makes every formula know all base variables
        ops = []
        count = 2
        for o in h:
            o = dict(o)
            if o["op"] in ("new", "apps", "appc"):
                o["cl"] = many(rnd, n) if big and rnd.random() < 0.5 else clauses(rnd, n)
                if pad:
                    o["cl"].insert(rnd.randint(0, len(o["cl"])), [n, -n])
                o["spare"] = rnd.choice([0, 0, 1, 2, 5] + ([64, 200] if big else []))
                o["cspare"] = rnd.choice([0, 0, 1, 2])
            elif o["op"] == "neg":
                # without padding only a bound above everything keeps base
                # and auxiliary variables apart
                if not pad and o["bound"] == "none":
                    o["bound"] = "low"
                o["off"] = rnd.choice([0, 0, 1, 3, 17]) if o["bound"] == "top" else rnd.randint(0, 9)
                if o["bound"] == "low":
                    o["off"] = max(o["off"], 0 if pad else n)
                if wide and o["bound"] != "none":
                    o["off"] = rnd.choice(huge or [120, 250, 999, 4090, 9999, 32760, 65530, 99990, 2**20, 2**24, 2**29]) + rnd.randint(0, 9)
            elif o["op"] == "conj" and rnd.random() < 0.12:
                o["op"] = "appsh"
                o["off"] = rnd.randint(0, 1)
            ops.append(o)
            count += 1
            if prop == "C12" and rnd.random() < 0.1:
                ops.append({"op": "newh", "g": rnd.randint(1, count)})
                count += 1  # operands of later steps remain formulas obtained earlier
            if prop == "C12" and rnd.random() < 0.12:
                ops.append({"op": "write", "h": rnd.randint(1, count), "file": rnd.choice(["new", "new", "longer", "nodir"])})
            if prop == "C13" and rnd.random() < 0.4:
                ops.append({"op": "write", "h": rnd.randint(1, count),
                            "file": rnd.choice(["new", "new", "longer", "longer", "nodir", "full", "limit0", "limit1", "limit2", "limit3"])})
        stims.append({"id": "H-%d" % i, "kind": "cnf", "n": n, "d": 1, "tree": TREE[1:2], "ops": ops,
                      "rules": CNFRULES[prop],
                      "tag": "history made by TLC" + (", long lists" if big else ", far numbers" if wide else "")})
    return stims, g1 + g2, d1 + d2


# ---------------------------------------------------------------- solvers

TREE3 = [{"v": False, "f": 0, "z": 1, "o": 2}, {"v": True, "f": 0, "z": -1, "o": -1},
         {"v": False, "f": 1, "z": 3, "o": 4}, {"v": False, "f": 0, "z": -1, "o": -1},
         {"v": True, "f": 0, "z": -1, "o": -1}]
SOLVERRULES = {"C14": ["verdict"], "C15": ["values"], "C16": ["files"]}
SIGNALS = [1, 2, 3, 6, 9, 10, 11, 12, 13, 14, 15]
CODES = [0, 0, 1, 2, 3, 9, 11, 19, 21, 30, 40, 99, 100, 110, 120, 126, 127, 128, 138, 148, 137, 139, 255, 245, 246, 236]


def layout(rnd):
    return {"per": rnd.choice([0, 0, 1, 2, 3, 5, 7, 10]), "sep": rnd.choice([" ", " ", " ", "  ", "\t"]),
            "lead": rnd.choice([" ", " ", " ", "  ", "\t"]), "end": rnd.choice(["", "", "", " ", "\t"]),
            "cr": rnd.random() < 0.15, "order": rnd.choice(["up", "up", "down", "mix", "neg"]),
            "comments": rnd.random() < 0.4, "zero": rnd.choice(["own", "last"]),
            "blank": rnd.random() < 0.2, "noeol": rnd.random() < 0.2, "late": rnd.random() < 0.15,
            "pad": rnd.choice([0] * 20 + [200, 100000]), "seed": rnd.randrange(1 << 30)}


def inst(rnd, d):
    return [rnd.randrange(3) for _ in range(d)]


def atom(op, *ts, **kw):
    return dict({"op": op, "t": list(ts)}, **kw)


def body(rnd, names, d, sat):
    """A formula over the names; satisfiable, if asked for."""
    v = {"k": "v", "n": rnd.choice(names)}
    c = {"k": "c", "n": "", "x": [rnd.randrange(1, 3) for _ in range(d)]}
    n = rnd.randrange(8)
    if n == 0:
        return {"op": "true"}
    if n == 1:
        return atom("full", v)
    if n == 2:
        return {"op": "not", "a": atom("full", v)}
    if n == 3:
        return atom("sub", v, c)
    if n == 4:
        return {"op": "not", "a": atom("sub", c, v)}
    if n == 5:
        return atom("isnode", v)
    if n == 6:
        return {"op": "or", "a": atom("sub", c, v), "b": {"op": "not", "a": atom("dfs", v)}}
    if sat:
        return atom("lel", v, c)
    return {"op": "and", "a": atom("full", v), "b": {"op": "not", "a": atom("full", v)}}


def solvers(prop, seed, tier, work, tlc, CheckError):
    rnd = random.Random(seed * 37 + int(prop[1:]))
    quick = tier != "thorough"
    hs, g1, d1 = produce("GenSolver", "GenSolver%s.cfg" % ("" if quick else "T"), work, tlc, (), CheckError)
    hs = [h for h in hs if h[-1]["op"] == "values"] + sample([h for h in hs if h[-1]["op"] != "values"], 3000 if quick else 20000, rnd) \
        if prop == "C15" else hs
    hs = sample(hs, 1500 if quick else 12000, rnd)
    num = 250 if quick else 2500
    sims, g2, d2 = produce("GenSolver", "GenSolverSim.cfg", work, tlc,
                           ("-simulate", "num=%d" % num, "-depth", "14", "-seed", str(seed)), CheckError)
    hs += sims
    stims = []
    for n, h in enumerate(hs):
        d = rnd.choice([1, 2, 2, 3, 3, 5])
        tree = TREE if d < 2 else TREE3
        ops, ctx, known = [], 0, []
        for k, o in enumerate(h):
            if o["op"] == "values":
                if known:
                    vs = [rnd.choice(known) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]
                    ops.append({"op": "values", "vars": vs})
                continue
            if not o["same"]:
                ctx += 1
            names = [x % k for x in rnd.sample(["x%d", "y%d", "a long name %d", "%d", "v%d"], rnd.randint(1, 3))]
            e = o["end"]
            sat = e == "solve" and rnd.random() < 0.75
            q = body(rnd, names, d, sat or rnd.random() < 0.8)
            if e == "solve" and not sat:
                q = {"op": "and", "a": atom("full", {"k": "v", "n": names[0]}),
                     "b": {"op": "not", "a": atom("full", {"k": "v", "n": names[0]})}}
            for x in reversed(names):
                q = {"op": "with", "v": x, "a": q}
            s = {"op": "step", "ctx": ctx, "q": q, "names": names, "vals": {x: inst(rnd, d) for x in names},
                 "junk": rnd.randrange(4), "fault": "none", "stdout": "sat", "stderr": rnd.choice([0, 0, 0, 0, 100, 200000]),
                 "layout": layout(rnd), "out": {"k": "exit", "code": 10, "sig": 0}}
            if e == "solve":
                s["out"]["k"] = "solve"
                s["stdout"] = "none"
            elif e == "unsat":
                s["out"]["code"] = 20
                s["stdout"] = rnd.choice(["unsat", "unsat", "none"])
            elif e == "code":
                s["out"]["code"] = rnd.choice(CODES)
                s["stdout"] = rnd.choice(["sat", "sat", "unsat", "none"])
            elif e == "signal":
                s["out"] = {"k": "signal", "code": 0, "sig": rnd.choice(SIGNALS)}
                s["stdout"] = rnd.choice(["sat", "sat", "unsat", "none"])
            elif e == "start":
                s["out"] = {"k": rnd.choice(["gone", "noexec", "dir", "garbage"]), "code": 0, "sig": 0}
            elif e != "sat":
                s["fault"] = {"enc": "enc", "tmp": rnd.choice(["tmpdir", "tmpfile"]),
                              "write": rnd.choice(["rmdir", "limit", "limit"])}[e]
                s["third"] = rnd.randrange(3)
                if rnd.random() < 0.3:
                    s["out"]["code"], s["stdout"] = 20, "unsat"
            if e == "sat" or sat:
                known = names
            ops.append(s)
        stims.append({"id": "H-%d" % n, "kind": "solver", "rules": SOLVERRULES[prop], "d": d, "tree": tree,
                      "style": 0, "pre": rnd.randrange(5), "ops": ops, "tag": "history made by TLC"})
    return stims, g1 + g2, d1 + d2


# ----------------------------------------------------------- combinations

def combination(toks, rnd):
    ids = iter(range(1, len(toks) + 1))
    it = iter(toks)

    def one(t):
        if t in ("and", "or"):
            kids = []
            for u in it:
                if u == "end":
                    break
                kids.append(one(u))
            return {"op": t, "kids": kids}
        c = {"op": "leaf", "id": next(ids), "neg": False, "how": ""}
        if len(toks) > 1 and rnd.random() < 0.15:
            c["how"] = rnd.choice(["custom", "customtrue"])
            c["out"] = {"t": "sat", "f": "unsat", "e": "err"}[t]
            return c
        c["neg"] = rnd.random() < 0.5
        c["out"] = "err" if t == "e" else "sat" if (t == "t") != c["neg"] else "unsat"
        if rnd.random() < 0.3:
            c["how"] = "wrapped"
        return c
    return one(next(it))


def combs(prop, seed, tier, work, tlc, CheckError):
    rnd = random.Random(seed * 41)
    quick = tier != "thorough"
    hs, g, d = produce("GenComb", "GenComb%s.cfg" % ("" if quick else "T"), work, tlc, (), CheckError)
    stims = [{"id": "H-%d" % n, "kind": "comb", "c": combination(h, rnd), "tag": "combination made by TLC"}
             for n, h in enumerate(hs)]
    return stims, g, d


# ----------------------------------------------------------- optimisations

OPTRULES = {"C18": ["opt"], "C19": ["steps"], "C20": ["fail"]}


def optima(prop, seed, tier, work, tlc, CheckError):
    rnd = random.Random(seed * 43 + int(prop[1:]))
    hs, g, d = produce("GenOptimum", "GenOptimum.cfg", work, tlc, (), CheckError)
    stims = []
    for n, h in enumerate(hs):
        fail = {"k": "none", "at": 0}
        if h["failed"]:
            k = "read" if h["reading"] else rnd.choice(["step", "fenc", "nilf"] + ["oenc", "nilo", "step"] * (h["calls"] > 1))
            if k == "read" and rnd.random() < 0.2:
                k = "readunsat"
            fail = {"k": k, "at": h["calls"]}
        stims.append({"id": "H-%d" % n, "kind": "opt", "d": 1, "tree": TREE, "style": 0, "rules": OPTRULES[prop],
                      "v": rnd.choice(["x", "v"]), "mode": "table", "F": h["f"], "R": h["r"], "triv": rnd.random() < 0.3,
                      "chain": h["chain"], "fail": fail, "unsat": rnd.choice(["plain", "wrapped"]), "bin": False,
                      "pre": 0, "tag": "search made by TLC"})
    return stims, g, d


# ------------------------------------------------------------ side by side

def schedules(prop, seed, tier, work, tlc, CheckError, pool):
    rnd = random.Random(seed * 47)
    quick = tier != "thorough"
    two, g1, d1 = produce("GenConcurrent", "GenConcurrent.cfg", work, tlc, (), CheckError)
    three, g2, d2 = produce("GenConcurrent", "GenConcurrent3.cfg", work, tlc, (), CheckError)
    num = 60 if quick else 600
    long, g3, d3 = produce("GenConcurrent", "GenConcurrentSim.cfg", work, tlc,
                           ("-simulate", "num=%d" % num, "-depth", "50", "-seed", str(seed)), CheckError)
    hs = sample(two, 300 if quick else 4000, rnd) + sample(three, 300 if quick else 4000, rnd) + sample(long, num, rnd)
    evals = pool("C23e")
    stims = []
    for n, h in enumerate(hs):
        k = max(o["p"] for o in h)
        e = rnd.choice([x for x in evals if x["n"] == k])
        stims.append({"id": "H-%d" % n, "kind": "par", "mode": "coop", "sched": h, "seed": rnd.randrange(1 << 40),
                      "reps": 1, "share": e["share"], "pre": rnd.randrange(3), "evals": e["evals"],
                      "tag": "schedule made by TLC"})
    return stims, g1 + g2 + g3, d1 + d2 + d3


# ---------------------------------------------------------------- sessions

def sessions(prop, seed, tier, work, tlc, CheckError, pool):
    rnd = random.Random(seed * 53)
    quick = tier != "thorough"
    hs, g1, d1 = produce("GenSession", "GenSession.cfg", work, tlc, (), CheckError)
    hs = sample(hs, 800 if quick else 8000, rnd)
    num = 1200 if quick else 12000
    sims, g2, d2 = produce("GenSession", "GenSessionSim.cfg", work, tlc,
                           ("-simulate", "num=%d" % num, "-depth", "17", "-seed", str(seed)), CheckError)
    p = os.path.join(work, "skeletons.ndjson")
    with open(p, "w") as f:
        for h in hs + sims:
            f.write(json.dumps(h) + "\n")
    os.environ["VDRIVE_HISTORIES"] = p
    try:
        stims = pool("C25")
    finally:
        del os.environ["VDRIVE_HISTORIES"]
    return stims, g1 + g2, d1 + d2


def make(prop, spec, seed, tier, work, tlc, CheckError, pool):
    _, module, what = spec
    if what == "session":
        return sessions(prop, seed, tier, work, tlc, CheckError, pool)
    if what == "par":
        return schedules(prop, seed, tier, work, tlc, CheckError, pool)
    if what == "ctx":
        return contexts(prop, seed, tier, work, tlc, CheckError)
    if what == "cnf":
        return formulas(prop, seed, tier, work, tlc, CheckError)
    if what == "solver":
        return solvers(prop, seed, tier, work, tlc, CheckError)
    if what == "comb":
        return combs(prop, seed, tier, work, tlc, CheckError)
    if what == "opt":
        return optima(prop, seed, tier, work, tlc, CheckError)
    raise CheckError("no histories of kind " + what)


# ------------------------------------------------------------ attribution
# Some properties compare two situations. A behaviour that is wrong in the
# simpler one already violates another property and not this one.

def without(stim, parts):
    """A session without some of its operations, or nothing if it is empty."""
    parts = set(parts)
    ops, index = [], {}
    for k, o in enumerate(stim["ops"]):
        o = dict(o)
        if o["op"] == "values":
            if o["of"] - 1 in parts:
                continue
            o["of"] = index[o["of"] - 1]
        elif k in parts:
            if o["op"] != "optim":
                continue
            # Names may be used again after an optimisation.
            o = {"op": "reset", "c": o["c"], "s": 0, "of": 0, "fault": "none", "vars": [], "layout": o["layout"]}
        elif o["of"]:
            o["of"] = index.get(o["of"] - 1, 0)
        ops.append(o)
        index[k] = len(ops)
    return dict(stim, ops=ops) if ops else None


def simpler(prop, stim):
    """Stimuli that must be accepted for a rejection to count."""
    if prop == "C10" and stim["kind"] == "query":
        s = dict(stim)
        s.pop("hist", None)
        s.pop("twice", None)
        return [s]
    if prop == "C23" and stim["kind"] == "ctx":
        r = []
        for c in (1, 2):
            s = dict(stim)
            s["ops"] = [o for o in stim["ops"] if o["c"] == c]
            r.append(s)
        return r
    if stim["kind"] == "session":
        # Each evaluation with nothing before it; what is wrong then is taken
        # out of the session (see without).
        r = []
        for k, o in enumerate(stim["ops"]):
            if o["op"] in ("sat", "step", "optim"):
                s = dict(stim)
                s["ops"] = [dict(o, of=0)]
                if o["op"] == "step":
                    vs = next((p["vars"] for p in stim["ops"] if p["op"] == "values" and p["of"] == k + 1), None)
                    if vs:
                        s["ops"].append(dict(o, op="values", of=1, vars=vs, fault="none"))
                s["part"] = k
                r.append(s)
        return r
    if prop == "C23" and stim["kind"] == "par":  # each evaluation alone
        r = []
        for e in stim["evals"]:
            s = dict(stim)
            s.update(mode="free", sched=[], reps=1, share=False, evals=[e])
            r.append(s)
        return r
    return []
