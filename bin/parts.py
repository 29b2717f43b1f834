"""What is explored for each property, and how the result is put together."""
import json, random, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *

ASSUME = {"*": [
    "the fake control plane and virtual time of the harness (testing/synctest) stand for a real stream and real time",
    "the control plane sends well-formed configurations as described in DESIGN.md (leniencies)",
]}

LEVELS = {}


class Result:
    def __init__(self):
        self.violations = []
        self.n = {}          # counts
        self.samples = []
        self.exhaustive = None
        self.rules = []

    def add(self, **kw):
        for k, v in kw.items():
            self.n[k] = self.n.get(k, 0) + v

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def coverage(self, level):
        c = dict(self.n)
        c["samples"] = self.samples
        c["rule"] = "; ".join(self.rules)
        if level == "model_checking":
            for k in ("states", "transitions", "traces_validated_against_impl"):
                c.setdefault(k, 0)
        return c


# ------------------------------------------------------- histories and traces

def judge(r, prop, rows, traces, **kw):
    """The violations of prop among what the monitor found."""
    res, st = monitor(r.w, rows, traces, **kw)
    by = {x["b"]: x for x in rows}
    r.add(traces_validated_against_impl=len(rows), trace_events=sum(len(traces[x["b"]]) for x in rows), monitor_states=st)
    for x in res:
        for k, v in x["n"].items():
            r.n.setdefault("seen", {})
            r.n["seen"][k] = r.n["seen"].get(k, 0) + v
        vs = [v for v in x["viol"] if v["p"] == prop]
        if vs:
            v = min(vs, key=lambda v: v["at"])
            r.violations.append({"why": v["why"], "at": v["at"], "history": by[x["b"]], "trace": traces[x["b"]][:v["at"]]})


def trace_part(r, prop, smalls, rands, seed):
    w = r.w
    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(build, w)
        fs = [ex.submit(small, w, a, d, t) for a, d, t in smalls]
        fr = [ex.submit(generate, w, p, d, n, seed * 1000 + i) for i, (p, d, n) in enumerate(rands)]
        fb.result()
        rows = []
        for (a, d, t), f in zip(smalls, fs):
            rs, gen, dist = f.result()
            r.add(states=dist, transitions=gen, small_histories=len(rs))
            rows += rs
        if smalls:
            r.rule("TLC explores XdsModel over the alphabets %s exhaustively (steps, remembered last steps: %s); one history per transition is replayed"
                   % (", ".join(a for a, _, _ in smalls), ", ".join("%s %d/%d" % x for x in smalls)))
        for (p, d, n), f in zip(rands, fr):
            rs, gen = f.result()
            r.add(random_histories=len(rs), model_steps=gen)
            rows += rs
        if rands:
            r.rule("random histories of XdsModel (profile, steps, number: %s)" % ", ".join("%s %d %d" % x for x in rands))
    traces, errs = replay(w, rows)
    judge(r, prop, rows, traces)
    rnd = random.Random(seed)
    for x in rnd.sample(rows, min(2, len(rows))):
        r.sample({"history": x, "events": len(traces[x["b"]])})


def conc_part(r, prop, scens, tail, cap, seed):
    """Forces the schedules of XdsConc onto the real code."""
    w = r.w
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build, w)
        fs = [ex.submit(conc, w, s, 40, tail) for s in scens]
        fb.result()
        rows = []
        for i, (s, f) in enumerate(zip(scens, fs)):
            rs, gen, dist = f.result()
            r.add(states=dist, transitions=gen, schedules=len(rs))
            if len(rs) > cap:
                rs = random.Random(seed * 100 + i).sample(rs, cap)
            r.add(schedules_forced=len(rs))
            rows += rs
    r.rule("TLC explores every interleaving of the scenarios %s of XdsConc (lookups, receiver, sender, sweeper, streams, handlers, the manager's lock); "
           "its schedules, one per transition and the %d last steps (at most %d for each scenario), are forced onto the real goroutines" % (", ".join(scens), tail + 1, cap))
    traces, errs = replay(w, rows)
    judge(r, prop, rows, traces)
    x = random.Random(seed).choice(rows)
    r.sample({"schedule": x, "events": len(traces[x["b"]])})


# scenarios of XdsConc
CONC = {
    "C01": ["evict", "evictr", "remove"],
    "C02": ["nack", "reconn"],
    "C03": ["evict", "lost", "wake2"],
    "C04": ["reconn", "again", "lost"],
    "C05": ["wake3", "remove"],
    "C06": ["wake", "wake2", "wake3", "remove", "nack"],
    "C07": ["reg", "regev", "policy", "policy2", "wake"],
    "C16": ["policy2", "reg"],
    "C17": ["policy"],
    "C19": ["evict", "evictr", "lost"],
}


def flood_part(r, prop, crowds=False):
    rows = [x for x in flood(r.w) if not crowds or x["b"].startswith("crowd")]
    r.rule("the histories of XdsFlood: " + ("" if crowds else "more requests than any queue holds while the sender is stopped, the stream replaced or missing; ")
           + "many names of one type looked up, idle and evicted at once")
    r.add(flood_histories=len(rows))
    traces, errs = replay(r.w, rows)
    judge(r, prop, rows, traces, chunk=2, par=4)


def storm_part(r, num, seed):
    w = r.w
    rows = storm(w, num, seed)
    traces, errs = run_storms(w, rows)
    res, st = judge_storms(w, rows, traces)
    by = {x["b"]: x for x in rows}
    r.add(storms=len(rows), storm_lookups=sum(x["n"]["get"] for x in res), storm_operations=sum(x["n"]["op"] for x in res),
          traces_validated_against_impl=len(rows), monitor_states=st)
    r.rule("random storms (Storm): 5 to 10 goroutines use one client at once under the race detector; StormJudge decides whether what they observed has a sequential explanation")
    for x in res:
        if x["viol"]:
            v = min(x["viol"], key=lambda v: v["at"])
            r.violations.append({"why": v["why"], "at": v["at"], "storm": by[x["b"]], "observed": traces[x["b"]]})


QUICK = {
    # alphabets explored exhaustively, random profiles
    "C01": (["cache", "life", "bind"], ["base", "stream", "sweep", "conc"]),
    "C02": (["cache", "bind", "stream"], ["nack", "nack", "base", "stream"]),
    "C03": (["cache", "stream", "life"], ["base", "stream", "lookup", "conc"]),
    "C04": (["stream", "warm"], ["stream", "stream", "stream", "conc"]),
    "C05": (["cache", "stream"], ["lookup", "lookup", "base", "stream"]),
    "C06": (["cache", "drop"], ["lookup", "lookup", "conc", "conc", "sweep"]),
    "C07": (["cache", "retry"], ["conc", "conc", "conc", "base"]),
    "C14": (["bind"], ["bind", "bind", "bind"]),
    "C16": (["breaker"], ["policy", "breaker", "breaker", "base", "nack"]),
    "C17": (["retry"], ["policy", "retry", "retry", "base", "nack"]),
    "C18": (["limit"], ["policy", "limit", "limit", "base", "nack"]),
    "C19": (["life", "drop", "retry"], ["sweep", "sweep", "sweep", "base"]),
}
for _p in QUICK:
    LEVELS[_p] = "model_checking"

BUDGET = 640     # seconds of a thorough run


def histories(r, prop, tier, seed, t0):
    alphas, profs = QUICK[prop]
    trace_part(r, prop, [(a, 5 if a == "drop" else 4, 1) for a in alphas], [(p, 25, 150 if p == "bind" else 250) for p in profs], seed)
    scens = CONC.get(prop, [])
    if scens and not r.violations:
        conc_part(r, prop, scens, 0, 1600 // len(scens), seed)
    if prop in ("C03", "C04", "C05", "C07") and not r.violations:
        flood_part(r, prop)
    if prop in ("C01", "C06", "C19") and not r.violations:
        flood_part(r, prop, crowds=True)
    if prop == "C07" and not r.violations:
        storm_part(r, 200 if tier == "quick" else 1500, seed)
    if tier == "thorough":
        if scens and not r.violations:
            conc_part(r, prop, scens, 1, 8000 // len(scens), seed)
        if not r.violations:
            trace_part(r, prop, [(a, 6, 0) for a in alphas] + [(a, 5, 2) for a in alphas[:1]], [], seed)
        i = 0
        while not r.violations and time.time() - t0 < BUDGET:
            i += 1
            if scens and i % 4 == 0:
                conc_part(r, prop, [scens[i // 4 % len(scens)]], 2, 2500, seed + i)
                continue
            if prop == "C07" and i % 4 == 2:
                storm_part(r, 1000, seed + i)
                continue
            trace_part(r, prop, [], [(p, 25 if i % 3 else 60, 150 if p == "bind" else 400) for p in profs], seed + 7919 * i)


# ------------------------------------------------------------ configurations

CONFIG = {
    # exhaustive alphabets, random profiles with the number of rows of a quick run
    "C08": (["route", "prec"], [("route", 2000)]),
    "C09": (["weight"], [("pick", 300), ("route", 600)]),
    "C10": (["resolve"], [("resolve", 2000), ("hostile", 400)]),
    "C11": (["decode"], [("decode", 3000)]),
    "C12": (["decode2"], [("decode", 4000)]),
    "C13": (["bytes"], [("bytes", 14000), ("decode", 900), ("hostile", 600)]),
    "C14": (["bind"], [("bind", 800)]),
    "C15": (["prec"], [("route", 1200), ("hostile", 900), ("resolve", 300)]),
    "C20": (["boot", "init"], [("boot", 1500), ("bind", 200)]),
}


def size(r):
    """The number of cases in a row."""
    if r["k"] == "world":
        return sum(len(p["acts"]) for p in r["phases"])
    if r["k"] == "boot":
        return 1 + len(r["phases"]) * len(r["lookups"])
    if r["k"] == "init":
        return len(r["steps"])
    return max(1, len(r["res"]))


def config_part(r, prop, smalls, rands, seed):
    w = r.w
    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(build, w)
        fs = [ex.submit(small_config, w, a) for a in smalls]
        fr = [ex.submit(generate_config, w, p, n, seed * 1000 + i) for i, (p, n) in enumerate(rands)]
        fb.result()
        rows = [x for f in fs for x in f.result()]
        nsmall = len(rows)
        rows += [x for f in fr for x in f.result()]
    if smalls:
        r.add(exhaustive_rows=nsmall)
        r.rule("all configurations of ConfigSmall: " + ", ".join(smalls))
    r.rule("random configurations of ConfigGen (profile, number): " + ", ".join("%s %d" % x for x in rands))
    r.rule("non-trivial: the specification finds a route, endpoints, a resource or a usable client in the case; distinct: no two rows are equal")
    traces, errs = run_config(w, rows)
    res, st = judge_config(w, rows, traces)
    by = {x["b"]: x for x in rows}
    seen = set()
    for x in res:
        row = by[x["b"]]
        key = hash(json.dumps({k: v for k, v in row.items() if k != "b"}, sort_keys=True))
        r.add(evaluations=size(row), judge_rows=1)
        if key not in seen:
            seen.add(key)
            r.add(distinct_nontrivial=x["n"])
        vs = [v for v in x["viol"] if v["p"] == prop]
        if vs:
            v = min(vs, key=lambda v: v["at"])
            r.violations.append({"why": v["why"], "at": v["at"], "row": row, "observed": traces[x["b"]]})
    r.add(judge_states=st)
    rnd = random.Random(seed)
    for x in rnd.sample(rows, min(2, len(rows))):
        s = json.dumps(x)
        r.sample(x if len(s) < 4000 else s[:4000])


def configs(r, prop, tier, seed, t0):
    smalls, rands = CONFIG[prop]
    config_part(r, prop, smalls, rands, seed)
    if tier == "thorough":
        i = 0
        while not r.violations and time.time() - t0 < (BUDGET / 2 if prop in QUICK else BUDGET):
            i += 1
            config_part(r, prop, [], [(p, 3 * n) for p, n in rands], seed + 7919 * i)


PARTS = {p: [histories] for p in QUICK}
for _p in CONFIG:
    PARTS[_p] = [configs] + PARTS.get(_p, [])
    LEVELS.setdefault(_p, "exploration")


def run(w, prop, tier, seed, t0):
    r = Result()
    r.w = w
    for f in PARTS[prop]:
        f(r, prop, tier, seed, t0)
        if r.violations:
            break
    return r

TRACE = "TLA+ model of the client (XdsModel), its behaviours replayed into the real client, the recorded traces checked by TLC against XdsCore (XdsTrace)"
TECHNIQUE = {p: TRACE for p in QUICK}
NOTE = {p: "Every history explored is a run of the real client in virtual time whose complete trace TLC accepts as a behaviour of the specification; "
           "exhaustive up to the stated length over small alphabets, random beyond. Assumes the fake control plane and the leniencies in DESIGN.md." for p in QUICK}

CONF = ("TLA+ specification of what a configuration means (Config); its configurations, all small ones and random ones, are given to the real code "
        "and TLC decides whether what was observed is what they mean (ConfigJudge)")
TECHNIQUE.update({p: CONF if p not in QUICK else TRACE + "; " + CONF for p in CONFIG})
NOTE.update({p: "Small configurations exhaustively, random ones beyond; every observation of the real code (through a fake control plane in virtual time, "
                "or the decoders directly) is judged by TLC with the specification. Assumes the leniencies in DESIGN.md."
             for p in CONFIG if p not in QUICK})
