"""Singletons: first uses by several threads; destruction at the end of the program."""
import concur


def program(rng):
    p = []
    for _ in range(rng.randrange(1, 5)):
        k = rng.random()
        if k < 0.75:
            p.append({"f": "get", "slow": int(rng.random() < 0.2), "boom": int(rng.random() < 0.15), "us": rng.choice([1, 10, 30])})
        elif k < 0.9:
            p.append({"f": "destroy"})
        else:
            p.append({"f": "busy", "us": rng.choice([1, 10])})
    return p


def run(ctx):
    binary = ctx.compile_conc("h_singleton", ["h_singleton.cpp"], libs=concur.LIBS)
    for n in ("", "static"):
        m = ctx.model("SingletonMC", cfg="SingletonMC%s.cfg" % n, want_edges=True, expect_actions=["do", "lin", "ret", "tick"])
        for kind in ((2, 3) if n else (0, 1)):
            eps = concur.det_cover(ctx, m["edges"], {"op": "new", "mode": "det", "th": 3, "kind": kind, "strict": 0, "fresh": 1})
            ctx.conform("SingletonTrace", binary, ctx.write_script("cover%d" % kind, eps), cfg="ConcTrace.cfg", label="cover", timeout=600)
    G = {"f": "get"}
    eps = []
    for kind in range(4):
        for fresh in (0, 1):
            for progs in ([[G], [G]], [[G], [G], [G]], [[dict(G, boom=1)], [G, G]], [[G, {"f": "destroy"}, G], [G, G]]):
                eps.append(concur.free({"kind": kind, "strict": 0, "fresh": fresh}, progs, ctx.rng, ctx.quick, dfs=() if fresh else (0, 1), n=None if ctx.quick else 500))
    for _ in range(24 if ctx.quick else 300):
        kind = ctx.rng.randrange(4)
        eps.append(concur.free({"kind": kind, "strict": int(ctx.rng.random() < 0.3), "fresh": ctx.rng.randrange(2)},
                               [program(ctx.rng) for _ in range(ctx.rng.choice([2, 2, 3, 4]))], ctx.rng, ctx.quick, dfs=(), n=100 if ctx.quick else 600))
    ctx.conform("SingletonTrace", binary, ctx.write_script("free", eps), cfg="ConcTrace.cfg", label="free", timeout=700)
    at_exit(ctx)


def episode(kind, ctor, dtor, uses):
    lst = lambda v: ",".join(map(str, v))
    return [{"op": "new", "kind": lst(kind), "ctor": lst(ctor), "dtor": lst(dtor)}] + [{"op": "use", "k": k} for k in uses]


def at_exit(ctx):
    """What happens to singletons at the end of the program."""
    binary = ctx.compile("h_exit", ["h_exit.cpp"])
    m = ctx.model("ExitOrderMC", cfg="ExitOrderMC.cfg" if ctx.quick else "ExitOrderMCbig.cfg", want_edges=True, expect_actions=["prog"])
    progs = [d["e"] for d in m["edges"]]
    if not ctx.quick:
        progs = ctx.rng.sample(progs, min(6000, len(progs)))
    ctx.cov["model_transitions_replayed"] += len(progs)
    eps = [episode(e["kind"], e["ctor"], e["dtor"], e["uses"]) for e in progs]
    r = ctx.rng
    for _ in range(300 if ctx.quick else 4000):
        n = r.choice([3, 4, 5, 6])
        kind = [r.choice(["newdef", "newdef", "newkeep", "statdef", "statdef", "statkeep", "maldef", "malkeep", "newphx"]) for _ in range(n)]
        phx = "newphx" in kind
        ctor = [r.choice([0, 0] + list(range(k + 1, n + 1))) if k < n else 0 for k in range(1, n + 1)]
        dtor = [r.choice([0] + [j for j in range(k + 1 if phx else 1, n + 1) if j != k]) for k in range(1, n + 1)]
        eps.append(episode(kind, ctor, dtor, [r.randrange(1, n + 1) for _ in range(r.randrange(1, 8))]))
    ctx.conform("ExitOrderTrace", binary, ctx.write_script("exit", eps), cfg="ExitTrace.cfg", label="exit", timeout=600)
