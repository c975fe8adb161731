"""Operations of an active object."""
import concur


def ops(rng, n):
    p = []
    for _ in range(n):
        k = rng.random()
        if k < 0.8:
            p.append({"f": "queue", "k": rng.choice([1, 1, 1, 2, 3]), "us": rng.choice([1, 10, 40])})
        elif k < 0.9:
            p.append({"f": "busy", "us": rng.choice([1, 15])})
        else:
            p.append({"f": "stop"})
    return p


def owner(rng, alone):
    p = ops(rng, 1) if rng.random() < 0.2 else []
    for _ in range(rng.randrange(1, 3)):
        p += [{"f": "start"}] + ops(rng, rng.randrange(0, 4)) + [{"f": "stop"}, {"f": "join"}]
    if alone:
        if rng.random() < 0.5:
            p = p[:-1] + [{"f": "del"}]
        elif rng.random() < 0.5:
            p = p[:-2] + [{"f": "del"}]
    return p


def run(ctx):
    binary = ctx.compile_conc("h_active", ["h_active.cpp"], libs=concur.LIBS)
    m = ctx.model("ActiveMC", cfg="ActiveMC.cfg" if ctx.quick else "ActiveMCbig.cfg", want_edges=True, expect_actions=["do", "lin", "ret", "tick"])
    eps = concur.det_cover(ctx, m["edges"], {"op": "new", "mode": "det", "th": 2})
    ctx.conform("ActiveTrace", binary, ctx.write_script("cover", eps), cfg="ConcTrace.cfg", label="cover", timeout=600)
    Q, S = {"f": "queue", "k": 1, "us": 0}, lambda f: {"f": f}
    eps = [concur.free({}, [[S("start")] + own + [S("stop"), S("join")]] + others, ctx.rng, ctx.quick)
           for own, others in (([], [[Q, Q], [Q]]), ([Q], [[Q, S("stop")]]), ([S("stop"), S("join"), S("start")], [[Q, Q]]), ([], [[Q], [Q], [Q]]))]
    for i in range(40 if ctx.quick else 300):
        n = ctx.rng.choice([1, 2, 2, 3])
        eps.append(concur.free({}, [owner(ctx.rng, n == 1)] + [ops(ctx.rng, ctx.rng.randrange(1, 4)) for _ in range(n - 1)], ctx.rng, ctx.quick, n=50 if ctx.quick else 1000))
    ctx.conform("ActiveTrace", binary, ctx.write_script("free", eps), cfg="ConcTrace.cfg", label="free", timeout=700)
