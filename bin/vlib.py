"""Runs the specifications (TLC) and the harness (the real code), and compares them."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class Broken(Exception):
    """The check cannot give an answer."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.n = 0
        self.bin = {}

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- harness

def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOCACHE=os.environ.get("VERIF_GOCACHE", "/tmp/verif-gocache"), CGO_ENABLED="1")
    e.pop("GOROOT", None)
    return e


def build(w, race=False):
    """Builds the harness with the code of REPO; returns the test binary."""
    if race in w.bin:
        return w.bin[race]
    src = w.path("harness")
    shutil.copytree(HARNESS, src)
    mod = os.path.join(src, "go.mod")
    s = open(mod).read().replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(s)
    out = w.path("h.test")
    cmd = ["go1.25", "test", "-c", "-vet=off", "-tags", "verif", "-o", out]
    if race:
        cmd.append("-race")
    t = time.time()
    p = subprocess.run(cmd + ["."], cwd=src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise Broken("the harness does not build:\n" + p.stdout[-4000:])
    log("harness built in %.1f s" % (time.time() - t))
    w.bin[race] = out
    return out


def ndjson(path):
    ret = []
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                if l.endswith("\n"):
                    ret.append(json.loads(l))
    return ret


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def run_shard(w, binary, test, rows, env, timeout, ends):
    """Runs rows through one test of the harness. A row that kills the process gets a 'crash' event and the rest goes on,
    unless many do: waiting for a row that hangs takes long."""
    events, todo, errs = [], rows, []
    patience = 80
    while todo:
        i, o = w.path("in"), w.path("out")
        write_ndjson(i, todo)
        e = goenv()
        e.update({"VERIF_IN": i, "VERIF_OUT": o, "GOMAXPROCS": e.get("GOMAXPROCS", "4")}, **env)
        try:
            p = subprocess.run([binary, "-test.run", "^%s$" % test, "-test.timeout", "0"], env=e, cwd=os.path.dirname(o),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            rc, txt = -1, "timeout after %d s\n%s" % (timeout, (x.stdout or b"")[-2000:])
        out = ndjson(o)
        events += out
        for f in (i, o):
            if os.path.exists(f):
                os.remove(f)
        done = {x["b"] for x in out if x["e"] == ends}
        if rc == 0 and len(done) == len(todo):
            break
        left = [r for r in todo if r["b"] not in done]
        if not left:
            break
        bad = left[0]["b"]
        if rc == -1:
            raise Broken("the harness hangs on %s: %s" % (bad, txt[-3000:]))
        seen = {x["b"] for x in out}
        if bad not in seen and not re.search(r"panic|fatal error|DATA RACE|SIG", txt):
            raise Broken("the harness failed (%s): %s" % (rc, txt[-3000:]))
        last = [x for x in out if x["b"] == bad]
        if last and last[-1]["e"] == "stall":
            # the schedule itself stops the time, see harness/sched.go: run it and the others in the way that cannot
            log("%s stalls, stopped goroutines are let go when time passes" % bad)
            events = [x for x in events if x["b"] != bad]
            env, todo = dict(env, VERIF_FREE="1"), left
            continue
        if last and last[-1]["e"] == "hang":
            errs.append((bad, "hang", txt))
        else:
            kind = "crash"
            if "main bubble goroutine has exited" in txt:
                kind = "leak"      # goroutines that do not end when the client is closed: not a matter of the properties
            elif "goroutines in bubble are blocked" in txt:
                kind = "hang"
            events.append({"b": bad, "e": kind, "msg": txt[-3000:]})
            errs.append((bad, kind, txt))
        events.append({"b": bad, "e": ends})
        todo = left[1:]
        patience -= 40 if last and last[-1]["e"] == "hang" else 1
        if patience <= 0 and todo:
            log("too many failures, %d rows are not run" % len(todo))
            break
    return events, errs


def replay(w, rows, test="TestReplay", race=False, shards=CPUS, env={}, timeout=800, ends="end"):
    """Runs the histories in the real code and returns b -> events; rows, a list, loses those that were not run."""
    b = build(w, race)
    shards = max(1, min(shards, len(rows)))
    parts = [rows[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(lambda p: run_shard(w, b, test, p, env, timeout, ends), parts))
    traces, errs = {}, []
    for evs, er in res:
        errs += er
        for e in evs:
            traces.setdefault(e.pop("b"), []).append(e)
    rows[:] = [r for r in rows if r["b"] in traces]
    return traces, errs


# ------------------------------------------------------------------- TLC

def tlc(w, module, cfg, env={}, args=(), workers=CPUS, heap="6g", timeout=860):
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    meta = w.path("meta")
    cmd = ["java", "-Xmx" + heap, "-Xss32m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, "-config", cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise Broken("TLC ran out of time on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def printed(out, tag):
    """The JSON values printed as <<tag, json>>."""
    ret = []
    pre = '<<"%s", ' % tag
    for l in out.splitlines():
        if l.startswith(pre):
            j = l[len(pre):]
            k = j.rfind(">>")
            ret.append(json.loads(json.loads(j[:k])))
    return ret


def states(out):
    m = re.findall(r"([\d,]+) states generated(?:, ([\d,]+) distinct)?", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int((d or g).replace(",", ""))


def tlc_errors(out):
    ls = [l for l in out.splitlines() if not l.startswith(("<<", "Parsing", "Semantic", "Linting"))]
    for i, l in enumerate(ls):
        if l.startswith("Error") or "xception" in l:
            return "\n".join(x[:400] for x in ls[i:i + 25])
    return ""


# -------------------------------------------------------------- histories

def generate(w, profile, depth, num, seed, module="XdsGen"):
    """Random histories of the model; TLC checks its invariants on the way."""
    rc, out = tlc(w, module + ".tla", module + ".cfg", {"PROFILE": profile, "DEPTH": depth},
                  ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed), "-aril", "0"], workers=1, heap="2g")
    rows = printed(out, "GEN")
    if rc != 0 or not rows:
        raise Broken("generator %s/%s: rc %d %s" % (module, profile, rc, tlc_errors(out) or out[-2000:]))
    for i, r in enumerate(rows):
        r["b"] = "%s-%d-%d" % (profile, seed, i)
    return rows, len(rows) * depth


def monitor(w, rows, traces, module="XdsTrace", chunk=400, par=2):
    """Decides which of the traces are behaviours of the specification."""
    items = []
    for r in rows:
        ev = traces.get(r["b"])
        if not ev:
            raise Broken("no trace of " + r["b"])
        for e in ev:
            e.pop("msg", None)
        items.append({"b": r["b"], "cfg": r["cfg"], "ev": ev})
    parts = [items[i:i + chunk] for i in range(0, len(items), chunk)]

    def one(p):
        f = w.path("traces")
        write_ndjson(f, p)
        rc, out = tlc(w, module + ".tla", module + ".cfg", {"TRACES": f}, workers=max(1, CPUS // par))
        os.remove(f)
        res = printed(out, "RESULT")
        if rc != 0 or len(res) != len(p):
            raise Broken("monitor: rc %d, %d results of %d: %s" % (rc, len(res), len(p), tlc_errors(out) or out[-2000:]))
        return res, states(out)[0]
    with ThreadPoolExecutor(par) as ex:
        got = list(ex.map(one, parts))
    res, st = [], 0
    for r, s in got:
        res += r
        st += s
    return res, st


def small(w, alpha, depth, tail):
    """Exhausts XdsModel over a small alphabet; one history for each transition, without those that others extend."""
    rc, out = tlc(w, "XdsSmall.tla", "XdsSmall.cfg", {"ALPHA": alpha, "DEPTH": depth, "TAIL": tail}, workers=4, heap="4g")
    rows = printed(out, "GEN")
    gen, dist = states(out)
    if rc != 0 or not rows:
        raise Broken("XdsSmall/%s: rc %d %s" % (alpha, rc, tlc_errors(out) or out[-2000:]))
    keys, pre = {}, set()
    for r in rows:
        ks = [json.dumps(x, sort_keys=True) for x in r["steps"]]
        for i in range(1, len(ks)):
            pre.add(hash("\n".join(ks[:i])))
        keys[id(r)] = hash("\n".join(ks))
    keep = sorted((r for r in rows if keys[id(r)] not in pre), key=lambda r: json.dumps(r["steps"]))
    for i, r in enumerate(keep):
        r["b"] = "%s-%d-%d-%d" % (alpha, depth, tail, i)
    return keep, gen, dist


def flood(w):
    """The histories of XdsFlood."""
    rc, out = tlc(w, "XdsFlood.tla", "XdsFlood.cfg", workers=1, heap="1g")
    rows = printed(out, "GEN")
    if rc != 0 or not rows:
        raise Broken("XdsFlood: rc %d %s" % (rc, tlc_errors(out) or out[-2000:]))
    return rows


def conc(w, scen, depth, tail):
    """Explores the interleavings of a scenario of XdsConc; one schedule for each transition, without those that others extend."""
    rc, out = tlc(w, "XdsConc.tla", "XdsConc.cfg", {"SCEN": scen, "DEPTH": depth, "TAIL": tail}, workers=1, heap="4g")
    rows = printed(out, "GEN")
    gen, dist = states(out)
    if rc != 0 or not rows:
        raise Broken("XdsConc/%s: rc %d %s" % (scen, rc, tlc_errors(out) or out[-2000:]))
    keys, pre = {}, set()
    for r in rows:
        st = [x for x in r["steps"] if x["op"] == "sched"][0]
        st["stops"].sort()
        ks = [json.dumps(x, sort_keys=True) for x in st["steps"]]
        for i in range(1, len(ks)):
            pre.add(hash("\n".join(ks[:i])))
        keys[id(r)] = hash("\n".join(ks))
    keep = sorted((r for r in rows if keys[id(r)] not in pre), key=lambda r: json.dumps(r["steps"], sort_keys=True))
    for i, r in enumerate(keep):
        r["b"] = "%s-%d-%d" % (scen, tail, i)
    return keep, gen, dist


# ---------------------------------------------------------- configurations

def generate_config(w, profile, num, seed):
    """Random rows of ConfigGen."""
    rc, out = tlc(w, "ConfigGen.tla", "ConfigGen.cfg", {"PROFILE": profile, "NUM": num},
                  ["-simulate", "num=1", "-depth", str(num + 2), "-seed", str(seed), "-aril", "0"], workers=1, heap="2g")
    rows = printed(out, "GEN")
    if rc != 0 or len(rows) < num:
        raise Broken("ConfigGen/%s: rc %d %s" % (profile, rc, tlc_errors(out) or out[-2000:]))
    for i, r in enumerate(rows):
        r["b"] = "%s-%d-%d" % (profile, seed, i)
    return rows


def small_config(w, alpha):
    """All rows of a kind of ConfigSmall."""
    rc, out = tlc(w, "ConfigSmall.tla", "ConfigSmall.cfg", {"ALPHA": alpha}, workers=1, heap="4g")
    rows = printed(out, "GEN")
    if rc != 0 or not rows:
        raise Broken("ConfigSmall/%s: rc %d %s" % (alpha, rc, tlc_errors(out) or out[-2000:]))
    for i, r in enumerate(rows):
        r["b"] = "small-%s-%d" % (alpha, i)
    return rows


def run_config(w, rows):
    """What the real code does with the rows: b -> observations."""
    alone = [r for r in rows if r["k"] == "init"]     # each needs a process of its own
    rest = [r for r in rows if r["k"] != "init"]
    # long ones last to first, so that the shards are even
    traces, errs = replay(w, rest, test="TestPure") if rest else ({}, [])
    if alone:
        t, e = replay(w, alone, test="TestPure", shards=len(alone))
        traces.update(t)
        errs += e
    rows[:] = [r for r in rows if r["b"] in traces]
    return traces, errs


def judge_config(w, rows, traces, chunk=4000, par=2):
    """What Config says of the observations."""
    items = []
    for r in rows:
        ev = traces.get(r["b"])
        if not ev:
            raise Broken("nothing observed of " + r["b"])
        items.append({"b": r["b"], "row": r, "obs": [{k: v for k, v in e.items() if k != "msg"} for e in ev]})
    parts = [items[i:i + chunk] for i in range(0, len(items), chunk)]

    def one(p):
        f = w.path("rows")
        write_ndjson(f, p)
        rc, out = tlc(w, "ConfigJudge.tla", "ConfigJudge.cfg", {"ROWS": f}, workers=max(1, CPUS // min(par, len(parts))))
        os.remove(f)
        res = printed(out, "RESULT")
        if rc != 0 or len(res) != len(p):
            raise Broken("judge: rc %d, %d results of %d: %s" % (rc, len(res), len(p), tlc_errors(out) or out[-2000:]))
        return res, states(out)[0]
    with ThreadPoolExecutor(par) as ex:
        got = list(ex.map(one, parts))
    return [x for r, _ in got for x in r], sum(s for _, s in got)


# ----------------------------------------------------------------- storms

def storm(w, num, seed):
    """Random rows of Storm."""
    rc, out = tlc(w, "Storm.tla", "Storm.cfg", {"NUM": num}, ["-simulate", "num=1", "-depth", str(num + 2), "-seed", str(seed), "-aril", "0"], workers=1, heap="2g")
    rows = printed(out, "GEN")
    if rc != 0 or len(rows) < num:
        raise Broken("Storm: rc %d %s" % (rc, tlc_errors(out) or out[-2000:]))
    for i, r in enumerate(rows):
        r["b"] = "storm-%d-%d" % (seed, i)
    return rows


def run_storms(w, rows, race=True):
    """What the goroutines of the storms observe; a data race ends the row."""
    traces, errs = replay(w, rows, test="TestStorm", race=race, shards=4, env={"GORACE": "halt_on_error=1 exitcode=66", "GOMAXPROCS": "6"})
    for b, kind, txt in errs:
        if "WARNING: DATA RACE" in txt:
            if "kitex-contrib/xds/" not in txt:
                raise Broken("a data race that is not in the client: " + txt[:3000])
            for e in traces[b]:
                if e["e"] == "crash":
                    e["race"] = True
                    i = txt.index("WARNING: DATA RACE")
                    e["msg"] = txt[i:i + 4000]
    return traces, errs


def judge_storms(w, rows, traces):
    items = []
    for r in rows:
        ev = traces.get(r["b"])
        if not ev:
            raise Broken("nothing observed of " + r["b"])
        items.append({"b": r["b"], "row": {"style": r["style"], "names": r["names"]}, "ev": [{k: v for k, v in e.items() if k != "msg"} for e in ev]})
    f = w.path("storms")
    write_ndjson(f, items)
    rc, out = tlc(w, "StormJudge.tla", "StormJudge.cfg", {"ROWS": f})
    os.remove(f)
    res = printed(out, "RESULT")
    if rc != 0 or len(res) != len(rows):
        raise Broken("storm judge: rc %d, %d results of %d: %s" % (rc, len(res), len(rows), tlc_errors(out) or out[-2000:]))
    return res, states(out)[0]
