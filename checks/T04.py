"""Scoped locks and spin locks."""
import concur


def program(rng, kinds):
    p, n = [], 0
    for _ in range(rng.randrange(2, 7)):
        k = rng.random()
        if k < 0.3 and n:
            p.append({"f": rng.choice(["close", "close", "isl"]), "i": rng.randrange(1, n + 1)})
            n = max(1, n - 1)
        elif k < 0.6:
            p.append({"f": rng.choice([x for x in ("sm", "sr", "sw", "ss") if x[1] in kinds])})
            n += 1
        elif k < 0.95:
            p.append({"f": rng.choice([f for f, x in (("trym", "m"), ("unm", "m"), ("tryr", "r"), ("unr", "r"), ("tryw", "w"), ("unw", "w"),
                                                       ("tryspin", "s"), ("spin", "s"), ("unspin", "s")) if x in kinds])})
        else:
            p.append({"f": "busy", "us": 10})
    return p


def run(ctx):
    binary = ctx.compile_conc("h_scoped", ["h_scoped.cpp"], libs=concur.LIBS)
    for c in ["ScopedMCm", "ScopedMCrw", "ScopedMCspin"] if ctx.quick else ["ScopedMC", "ScopedMCspin"]:
        m = ctx.model("ScopedMC", cfg=c + ".cfg", want_edges=True, expect_actions=["do", "lin", "ret"])
        eps = concur.det_cover(ctx, m["edges"], {"op": "new", "mode": "det", "th": 2})
        ctx.conform("ScopedTrace", binary, ctx.write_script(c, eps), cfg="ConcTrace.cfg", label="cover", timeout=600)
    eps = []
    for a in ("spin", "tryspin", "ss"):
        for b in ("tryspin", "ss"):
            eps.append(concur.free({}, [[{"f": a}], [{"f": b}, {"f": "unspin"}, {"f": b}]], ctx.rng, ctx.quick))
    for i in range(24 if ctx.quick else 200):
        kinds = ctx.rng.choice(["m", "rw", "s", "s", "mrws"])
        eps.append(concur.free({}, [program(ctx.rng, kinds) for _ in range(ctx.rng.choice([2, 2, 3]))], ctx.rng, ctx.quick))
    ctx.conform("ScopedTrace", binary, ctx.write_script("free", eps), cfg="ConcTrace.cfg", label="free", timeout=700)
