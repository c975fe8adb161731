"""Mutex: exclusion, recursion, timeouts, no lost waiter."""
import concur


def program(rng):
    p, held = [], 0
    for _ in range(rng.randrange(2, 6)):
        k = rng.random()
        if held and k < 0.4:
            p.append({"f": "unlock"})
            held -= 1
        elif k < 0.55:
            p.append({"f": "lock"})
            held += 1
        elif k < 0.7:
            p.append({"f": "try"})
            held += 1
        elif k < 0.8:
            p.append({"f": "abs", "us": rng.choice([-5, 0, 1, 10, 50])})
            held += 1
        elif k < 0.9:
            p.append({"f": "rel", "us": rng.choice([0, 1, 10, 50])})
            held += 1
        else:
            p.append({"f": "busy", "us": rng.choice([1, 10, 40, 100])})
    return p


def run(ctx):
    binary = ctx.compile_conc("h_mutex", ["h_mutex.cpp"], libs=concur.LIBS)
    m = ctx.model("MutexMC", cfg="MutexMC.cfg" if ctx.quick else "MutexMCbig.cfg", want_edges=True, expect_actions=["do", "lin", "ret", "tick"])
    eps = concur.det_cover(ctx, m["edges"], {"op": "new", "mode": "det", "th": 2 if ctx.quick else 3})
    ctx.conform("MutexTrace", binary, ctx.write_script("cover", concur.stretched(eps, ctx.rng)), cfg="ConcTrace.cfg", label="cover", timeout=600)
    eps = [concur.free({}, [program(ctx.rng) for _ in range(ctx.rng.choice([2, 2, 3, 4]))], ctx.rng, ctx.quick) for _ in range(24 if ctx.quick else 200)]
    ctx.conform("MutexTrace", binary, ctx.write_script("free", concur.stretch(eps, ctx.rng)), cfg="ConcTrace.cfg", label="free", timeout=700)
