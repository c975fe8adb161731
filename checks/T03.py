"""Semaphore: permits are neither lost nor invented; timeouts; no lost waiter."""
import concur


def program(rng):
    p = []
    for _ in range(rng.randrange(1, 6)):
        k = rng.random()
        if k < 0.4:
            p.append({"f": "post"})
        elif k < 0.55:
            p.append({"f": "wait"})
        elif k < 0.7:
            p.append({"f": "try"})
        elif k < 0.9:
            p.append({"f": rng.choice(["abs", "rel"]), "us": rng.choice([0, 1, 10, 50, 100])})
        else:
            p.append({"f": "busy", "us": rng.choice([1, 10, 40, 100])})
    return p


def run(ctx):
    binary = ctx.compile_conc("h_semaphore", ["h_semaphore.cpp"], libs=concur.LIBS)
    for c, cfg in [(1, "SemaphoreMC.cfg")] + ([] if ctx.quick else [(0, "SemaphoreMCbig.cfg")]):
        m = ctx.model("SemaphoreMC", cfg=cfg, want_edges=True, expect_actions=["do", "lin", "ret", "tick"])
        eps = concur.det_cover(ctx, m["edges"], {"op": "new", "mode": "det", "th": 3 if c else 4, "c": c})
        ctx.conform("SemaphoreTrace", binary, ctx.write_script("cover%d" % c, concur.stretched(eps, ctx.rng)), cfg="ConcTrace.cfg", label="cover", timeout=600)
    eps = [concur.free({"c": ctx.rng.choice([0, 0, 1, 2, 5])}, [program(ctx.rng) for _ in range(ctx.rng.choice([2, 2, 3, 4]))], ctx.rng, ctx.quick)
           for _ in range(24 if ctx.quick else 200)]
    ctx.conform("SemaphoreTrace", binary, ctx.write_script("free", concur.stretch(eps, ctx.rng)), cfg="ConcTrace.cfg", label="free", timeout=700)
