import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import histories, plan

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
CORES = 8


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GONOSUMDB="*", GOFLAGS_EXTRA="")
    if not e.get("HOME") and not e.get("GOCACHE"):
        e["GOCACHE"] = os.path.join(VERIF, "work", "gocache")
    return e


def build(dst, race=False):
    os.makedirs(dst, exist_ok=True)
    for cmd in ("vdrive", "fakesolver"):
        if not os.path.isdir(os.path.join(HARNESS, "cmd", cmd)) or \
           not any(f.endswith(".go") for f in os.listdir(os.path.join(HARNESS, "cmd", cmd))):
            continue
        args = ["go", "build", "-o", os.path.join(dst, cmd)]
        if race and cmd == "vdrive":
            args.append("-race")
        r = subprocess.run(args + ["./cmd/" + cmd], cwd=HARNESS, env=go_env(),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("cannot build %s:\n%s" % (cmd, r.stderr[-4000:]))


def build_racing(dst):
    build(dst, race=True)
    return dst


# --------------------------------------------------------------------- TLC

def tlc(module, config, work, env=None, workers=CORES, extra=(), timeout=850, heap="6g"):
    """Runs TLC; returns its output and its counts of states."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
           "-Djava.io.tmpdir=" + meta,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", config] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode("utf-8", "replace")
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    gen = dist = 0
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"(\d[\d,]*) states checked", out)
        if m:
            gen = dist = int(m[-1].replace(",", ""))
    return r.returncode, out, gen, dist


def run_model(entry, tier, seed, work):
    module, quick, thorough = entry
    config = thorough if tier == "thorough" else quick
    t = time.time()
    code, out, gen, dist = tlc(module, config, work)
    if code != 0 or "No error has been found" not in out:
        raise CheckError("the design model %s (%s) is not right:\n%s" % (module, config, out[-3000:]))
    return {"module": module, "config": config, "states": dist, "transitions": gen,
            "wall_s": round(time.time() - t, 1)}


REJ = re.compile(r'^"?(REJECT|INVALID) (\S+) (.*?)"?$')


def validate(module, events, work):
    """Checks events (a file) against a trace specification."""
    code, out, gen, dist = tlc(module, "Trace.cfg", work, env={"TRACE": events})
    if code != 0 or "No error has been found" not in out:
        first = out.find("Error:")
        raise CheckError("TLC could not evaluate the trace with %s:\n%s\n...\n%s"
                         % (module, out[first:first + 2000] if first >= 0 else "", out[-1500:]))
    rej, inv = {}, {}
    for line in out.splitlines():
        m = REJ.match(line)
        if m:
            (rej if m.group(1) == "REJECT" else inv)[m.group(2)] = m.group(3)
    if inv:
        k = sorted(inv)[0]
        raise CheckError("the stimulus %s is not admissible (%d in all)" % (k, len(inv)))
    return rej, gen, dist


# ------------------------------------------------------------- stimuli

def generate(bin, prop, gen, seed, tier, work):
    out = os.path.join(work, "stim-%s.ndjson" % gen)
    r = subprocess.run([os.path.join(bin, "vdrive"), "gen", "-prop", gen, "-seed", str(seed),
                        "-tier", tier, "-out", out], capture_output=True, text=True,
                       env=drive_env(bin, work))
    if r.returncode != 0:
        raise CheckError("generator %s: %s" % (gen, r.stderr[-2000:]))
    return out


def drive_env(bin, work):
    e = dict(os.environ)
    e["VDRIVE_BIN"] = bin
    e["VDRIVE_WORK"] = work
    e.setdefault("GOTRACEBACK", "single")
    e["GORACE"] = "exitcode=66 halt_on_error=1 atexit_sleep_ms=0"
    return e


def load(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def dump(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")


MAXDEAD = 4  # hangs or crashes after which a shard is given up


def execute(bin, stimuli, work, tag, shards=CORES, limit=30, extra=()):
    """Executes stimuli in several processes; a hang or the death of a process
    is an observation about the stimulus that was running."""
    shards = max(1, min(shards, len(stimuli)))

    def shard(k):
        part = stimuli[k::shards]
        fin = os.path.join(work, "%s-%d.in" % (tag, k))
        fout = os.path.join(work, "%s-%d.out" % (tag, k))
        dump(fin, part)
        if os.path.exists(fout):
            os.unlink(fout)
        dead = 0
        while True:
            done = len(load(fout)) if os.path.exists(fout) else 0
            if done >= len(part) or dead >= MAXDEAD:
                break
            r = subprocess.run([os.path.join(bin, "vdrive"), "exec", "-in", fin, "-out", fout,
                                "-skip", str(done), "-timeout", str(limit)] + list(extra),
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=drive_env(bin, work))
            if r.returncode == 0:
                break
            if r.returncode == 2 and b"goroutine " not in r.stderr[:4000] or \
               b"\nvdrive: " in b"\n" + r.stderr:
                raise CheckError("driver: " + r.stderr.decode("utf-8", "replace")[-3000:])
            dead += 1
            now = len(load_lenient(fout))
            if r.returncode != 3 and now < len(part):
                s = part[now]
                rewrite = load_lenient(fout)
                rewrite.append({"id": s["id"], "kind": s["kind"], "out": "crash",
                                "msg": r.stderr.decode("utf-8", "replace")[:600]})
                dump(fout, rewrite)
        return load(fout)

    events = []
    with cf.ThreadPoolExecutor(shards) as ex:
        for part in ex.map(shard, range(shards)):
            events += part
    order = {s["id"]: i for i, s in enumerate(stimuli)}
    events.sort(key=lambda e: order[e["id"]])
    return events


def load_lenient(path):
    if not os.path.exists(path):
        return []
    out = []
    with open(path) as f:
        for l in f:
            try:
                out.append(json.loads(l))
            except ValueError:
                break
    return out


# ------------------------------------------------------- histories by TLC

def plan_tlc(prop, spec, seed, tier, work, bin):
    """Histories made by TLC from a specification, as stimuli."""
    return histories.make(prop, spec, seed, tier, work, tlc, CheckError,
                          lambda gen: load(generate(bin, prop, gen, seed, tier, work)))


# ------------------------------------------------------------- verdicts

def digest(stim):
    s = {k: v for k, v in stim.items() if k not in ("id", "tag")}
    return hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest()[:16]


def known(prop):
    """Open findings of a property: digest -> description."""
    r = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) stimulus=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def confirm(bin, module, stim, work, tries, before=()):
    """Re-executes one stimulus on the real code, in a process that does
    nothing else (or only the stimuli before), and judges it again; the second
    time with another decision procedure for formulas."""
    for t in range(tries):
        ok = True
        why = ev = None
        for extra in ((), ("-dpll",)):
            evs = execute(bin, list(before) + [stim], work, "confirm", 1, 60, extra)
            evs = [e for e in evs if e["id"] == stim["id"]]
            f = os.path.join(work, "confirm.ndjson")
            dump(f, evs)
            rej, _, _ = validate(module, f, work)
            if not rej:
                ok = False
                break
            why, ev = list(rej.values())[0], evs[0]
        if ok:
            return why, ev
    return None, None


def attributable(bin, module, prop, stims, work):
    """The rejected stimuli whose simpler forms are accepted: the others are a
    matter of another property. Every one runs in a process of its own."""
    simple, owner = [], {}
    for s in stims:
        for j, t in enumerate(histories.simpler(prop, s)):
            t["id"] = "%s.%d" % (s["id"], j)
            owner[t["id"]] = (s["id"], t.pop("part", None))
            simple.append(t)
    if not simple:
        return stims
    rej = judge_alone(bin, module, simple, work)
    bad = {}
    for i in rej:
        bad.setdefault(owner[i][0], []).append(owner[i][1])
    left = [s for s in stims if s["id"] not in bad]
    rest = [s for s in stims if s["id"] in bad and s["kind"] == "session"]
    rest = [t for t in (histories.without(s, bad[s["id"]]) for s in rest) if t]
    if rest:
        rej = judge_alone(bin, module, rest, work)
        left += [t for t in rest if t["id"] in rej]
    return left


def judge_alone(bin, module, stims, work):
    """Which stimuli are rejected when each runs in a process of its own."""
    with cf.ThreadPoolExecutor(CORES) as ex:
        evs = list(ex.map(lambda k: execute(bin, [stims[k]], work, "alone%d" % k, 1, 60)[0], range(len(stims))))
    f = os.path.join(work, "alone.ndjson")
    dump(f, evs)
    return validate(module, f, work)[0]


def spread(l, n):
    """At most n of them, from everywhere."""
    return l if len(l) <= n else [l[k * len(l) // n] for k in range(n)]


def short(o, n=1500):
    s = json.dumps(o, separators=(",", ":"))
    if len(s) <= n:
        return o
    return s[:n] + "..."


def run(prop, tier, seed):
    t0 = time.time()
    p = plan.PLAN[prop]
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "work"))
    try:
        bin = os.path.join(work, "bin")
        racing = None
        if any("race" in how for _, _, *how in p["streams"]):
            racing = cf.ThreadPoolExecutor(1).submit(build_racing, os.path.join(work, "race"))
        build(bin)
        states = trans = 0
        models = []
        # the streams
        streams = []
        violations, unconfirmed, knowns = [], [], []
        accepted = 0
        samples = []
        tags = {}
        for gen, module, *how in p["streams"]:
            use = bin
            if "race" in how:
                use = racing.result()
            if isinstance(gen, tuple):
                stims, g, d = plan_tlc(prop, gen, seed, tier, work, bin)
                states += d
                trans += g
                name = gen[1]
            else:
                name = gen
                stims = load(generate(bin, prop, gen, seed, tier, work))
            shards = max(1, min(CORES, len(stims)))
            events = execute(use, stims, work, "run-" + name, limit=p.get("limit", 30), shards=shards)
            byid = {s["id"]: s for s in stims}
            rej = {}
            CH = p.get("chunk", 4000)
            for i in range(0, len(events), CH):
                f = os.path.join(work, "events.ndjson")
                dump(f, events[i:i + CH])
                r, g, d = validate(module, f, work)
                rej.update(r)
                states += d
                trans += g
            accepted += len(events) - len(rej)
            streams.append({"stimuli": name, "specification": module, "stimuli_made": len(stims),
                            "events": len(events), "rejected": len(rej)})
            if rej:
                print("%s: %d of %d behaviours rejected by %s" % (prop, len(rej), len(events), module))
            for s in stims:
                tags[s.get("tag", s["kind"])] = tags.get(s.get("tag", s["kind"]), 0) + 1
            for e in events[::max(1, len(events) // 2)][:2]:
                samples.append(short(e))
            kn = known(prop)
            mine = [byid[e["id"]] for e in events if e["id"] in rej]
            for s in mine:
                if digest(s) in kn:
                    knowns.append(kn[digest(s)])
            mine = [s for s in mine if digest(s) not in kn]
            mine = attributable(use, module, prop, spread(mine, 60), work)
            if rej and not mine:
                print("  (their simpler forms are rejected too, or they are known)")
            outs = {e["id"]: e["out"] for e in events}
            done = 0
            for s in mine:
                if done >= 4:
                    break
                if violations and outs[s["id"]] in ("hang", "crash"):
                    continue  # slow to reproduce, and one is enough
                e = {"id": s["id"]}
                done += 1
                before = []
                why, ev = confirm(use, module, s, work, p.get("tries", 1))
                if why is None:  # what the same process did before may matter
                    k = next(i for i, t in enumerate(stims) if t["id"] == s["id"])
                    history = stims[k % shards:k:shards]
                    for before in (history[-30:], history):
                        why, ev = confirm(use, module, s, work, 1, before)
                        if why is not None:
                            break
                if why is None:
                    unconfirmed.append((s, rej[e["id"]]))
                    continue
                path = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, digest(s)))
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as f:
                    json.dump({"property": prop, "specification": module, "why": why,
                               "stimulus": s, "event": ev, "before": before,
                               "race": "race" in how}, f, indent=1)
                violations.append((path, why))
            if violations:
                break
        if not violations and not unconfirmed:
            for m in p["models"]:
                r = run_model(m, tier, seed, work)
                models.append(r)
                states += r["states"]
                trans += r["transitions"]
        cov = {"states": states, "transitions": trans,
               "traces_validated_against_impl": accepted, "samples": samples,
               "streams": streams, "design_models": models, "stimuli_by_kind": tags,
               "exhaustive": False}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": cov,
              "assumptions": p.get("assumptions", []),
              "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in knowns:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for path, why in violations:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + why[:400])
        if violations:
            return 1
        if unconfirmed:
            s, why = unconfirmed[0]
            print("not reproduced: %s %s\n%s" % (s["id"], why[:400], json.dumps(s)[:1000]))
            return 2
        print("%s: %d behaviours of the code accepted, %d states, %.1f s" %
              (prop, accepted, states, time.time() - t0))
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("work:", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "work"))
    try:
        bin = os.path.join(work, "bin")
        build(bin, race=r.get("race", False))
        why, ev = confirm(bin, r["specification"], r["stimulus"], work,
                          plan.PLAN[prop].get("tries", 1), r.get("before", []))
        if why is None:
            print("the specification allows what the code does")
            return 0
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + why)
        print("  " + json.dumps(ev)[:3000])
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    try:
        if argv[:1] == ["--setup"]:
            work = tempfile.mkdtemp(prefix="setup-")
            try:
                build(os.path.join(work, "bin"))
            finally:
                shutil.rmtree(work, ignore_errors=True)
            return 0
        prop = argv[0]
        if prop not in plan.PLAN:
            print("no check for", prop)
            return 2
        if argv[1:2] == ["--replay"]:
            return replay(prop, os.path.abspath(argv[2]))
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in argv:
            tier = "thorough"
        return run(prop, tier, int(os.environ.get("VERIF_SEED", "1") or "1"))
    except CheckError as e:
        print("check error:", e)
        return 2
