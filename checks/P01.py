"""The performance monitor."""
import json

LIBS = ["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread", "icl_core_performance_monitor"]
PREFIXES = ["", "p", "pre", "group.one"]
NAMES = ["a", "ab", "b x", "sum", "p"]
ORDER = sorted(set(PREFIXES + NAMES), key=lambda s: s.encode())[1:]
NEW = {"op": "new", "names": ",".join(ORDER), "step": 0}


def value(rng):
    return rng.choice([0, 1, 5, -3, 8, 800, rng.randrange(-100, 100), rng.randrange(0, 40000), rng.randrange(-700000, 700000), 8 * rng.randrange(0, 90000)])


def episode(rng):
    ps, ns, ts = rng.sample(PREFIXES, rng.choice([1, 2, 2, 3])), rng.sample(NAMES, rng.choice([1, 2, 2, 3])), ["t", "u"]
    ep, started = [dict(NEW, step=rng.choice([0, 0, 1, 2]))], set()
    if rng.random() < 0.8:
        ep.append({"op": "init", "k": rng.choice([0, 1, 2, 10])})
    ep += [{"op": "enable", "p": p} for p in ps if rng.random() < 0.7]
    few, on, every, en = rng.random() < 0.3, True, False, set()
    count = 0
    for _ in range(rng.randrange(5, 70)):
        p, n, t = rng.choice(ps), rng.choice(ns), rng.choice(ts)
        kind = rng.choice(["start", "meas", "meas", "lap", "lap", "data", "data", "data", "non", "non", "static", "tick", "tick", "tick", "sum", "sumpre", "sumall"] +
                          ([] if few else ["enable", "disable", "all", "on", "on", "tell", "init"]))
        o = {"op": kind}
        if kind in ("meas", "lap", "data", "non", "static", "enable", "disable", "sum", "sumpre"):
            o["p"] = p
        if kind in ("meas", "lap", "data", "non", "static", "sum"):
            o["n"] = n
        if kind in ("data", "non", "static"):
            o["v"] = value(rng)
        if kind in ("start", "meas", "lap"):
            o["t"] = t
        if kind in ("all", "on", "tell"):
            o["b"] = int(rng.random() < 0.7)
        if kind == "tick":
            o["d"] = rng.choice([0, 1, 3, 8, 1000, 7999, 8000, rng.randrange(20000)])
        if kind == "init":
            o["k"] = rng.choice([0, 1, 5])
        if kind == "on":
            on = o["b"]
        if kind == "start" and on:
            started.add(t)
        # (a timer that never ran is not asked)
        if kind == "meas" and t not in started:
            o["op"] = "start"
            o.pop("p"), o.pop("n")
            if on:
                started.add(t)
        count += kind in ("meas", "lap", "data", "non")
        if count > 25:
            break
        o["m"] = rng.randrange(2)
        ep.append(o)
    ep += [{"op": "sumpre", "p": p} for p in ps] + [{"op": "sumall"}]
    return ep


def first(adj):
    """The state without anything."""
    for k in adj:
        now, on, ps, every, *sets = json.loads(k)
        if now == 0 and on and ps and not every and all(len(x) == 0 for x in sets):
            return {k: dict(NEW, names="a,p")}


def run(ctx):
    binary = ctx.compile("h_performance", ["h_performance.cpp"], libs=LIBS)
    if not ctx.quick:
        ctx.model("PerformanceMC", cfg="PerformanceMCbig.cfg", timeout=600)
    m = ctx.model("PerformanceMC", want_edges=True, expect_actions=["init", "start", "meas", "lap", "data", "non", "static", "enable", "disable", "all", "on", "tick", "sum", "sumpre", "sumall"])
    eps = ctx.edge_cover(m["edges"], first, max_len=120)
    for ep in eps:
        for o in ep:
            if o["op"] == "init":
                o["k"] = 1
    ctx.conform("PerformanceTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover", timeout=600, tlc_timeout=700)
    ctx.conform("PerformanceTrace", binary, ctx.write_script("random", [episode(ctx.rng) for _ in range(1500 if ctx.quick else 20000)]), cfg="Trace.cfg", label="random", timeout=700, tlc_timeout=800)
