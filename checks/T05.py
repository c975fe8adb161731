"""Life cycle of a thread object."""
import concur


def owner(rng, alone):
    p = []
    for _ in range(rng.randrange(2, 6)):
        k = rng.random()
        if k < 0.35:
            p.append({"f": "start", "us": 1 if rng.random() < 0.1 else 0})
        elif k < 0.5:
            p.append({"f": "stop"})
        elif k < 0.62:
            p.append({"f": rng.choice(["abs", "rel"]), "us": rng.choice([0, 1, 10, 25, 60])})
        elif k < 0.75:
            p.append({"f": "running"})
        elif k < 0.82:
            p.append({"f": "cancel"})
        elif k < 0.9:
            p.append({"f": "busy", "us": rng.choice([1, 10, 40])})
        else:
            p.append({"f": "self"})
    # an unlimited wait only for what was asked to end
    q = []
    for o in p:
        q.append(o)
        if o["f"] in ("stop", "cancel") and rng.random() < 0.7:
            q.append({"f": rng.choice(["wait", "join"])})
    if alone and rng.random() < 0.5:
        q.append({"f": "del"})
    return q


def observer(rng):
    return [rng.choice([{"f": "running"}, {"f": "running"}, {"f": "stop"}, {"f": "self"}, {"f": "busy", "us": 10}]) for _ in range(rng.randrange(1, 4))]


def run(ctx):
    binary = ctx.compile_conc("h_lifecycle", ["h_lifecycle.cpp"], libs=concur.LIBS)
    for cfg, b in (("LifecycleMC", "loop"), ("LifecycleMCquick", "quick")):
        m = ctx.model("LifecycleMC", cfg=cfg + ".cfg", want_edges=True, expect_actions=["do", "lin", "ret", "tick"])
        eps = concur.det_cover(ctx, m["edges"], {"op": "new", "mode": "det", "th": 2, "b": b})
        ctx.conform("LifecycleTrace", binary, ctx.write_script(cfg, concur.stretch(eps, ctx.rng, (1, 700001, 5000000), nap=10)), cfg="ConcTrace.cfg", label="cover", timeout=600)
    # somebody who sees that the thread runs stops it, while it is being started
    F = lambda *fs: [{"f": f, "us": 0} for f in fs]
    eps = [concur.free({"b": "loop"}, [F("start") + [{"f": "busy", "us": 30}] + own, other], ctx.rng, ctx.quick, n=100 if ctx.quick else 1000)
           for own in (F("stop", "wait"), F("stop", "join"), F("cancel", "wait"))
           for other in (F("running", "stop"), F("running", "stop", "running"), F("self", "running"))]
    for i in range(40 if ctx.quick else 300):
        b = ctx.rng.choice(["loop", "loop", "quick", "naps"])
        n = ctx.rng.choice([1, 2, 2, 3])
        eps.append(concur.free({"b": b}, [owner(ctx.rng, n == 1)] + [observer(ctx.rng) for _ in range(n - 1)], ctx.rng, ctx.quick, n=100 if ctx.quick else 1000))
    ctx.conform("LifecycleTrace", binary, ctx.write_script("free", eps), cfg="ConcTrace.cfg", label="free", timeout=700)
