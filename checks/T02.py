"""Read-write lock: many readers or one writer, timeouts, no lost waiter."""
import concur


def program(rng):
    p = []
    for _ in range(rng.randrange(2, 7)):
        k = rng.random()
        if k < 0.35:
            p.append({"f": "unlock"})
        elif k < 0.6:
            p.append({"f": rng.choice(["rlock", "wlock", "tryr", "tryw"])})
        elif k < 0.9:
            p.append({"f": rng.choice(["rabs", "wabs", "rrel", "wrel"]), "us": rng.choice([0, 1, 10, 50])})
        else:
            p.append({"f": "busy", "us": rng.choice([1, 10, 40, 100])})
    return p


def run(ctx):
    binary = ctx.compile_conc("h_rwlock", ["h_rwlock.cpp"], libs=concur.LIBS)
    m = ctx.model("RWLockMC", cfg="RWLockMC.cfg" if ctx.quick else "RWLockMCbig.cfg", want_edges=True, expect_actions=["do", "lin", "ret", "tick"])
    eps = concur.det_cover(ctx, m["edges"], {"op": "new", "mode": "det", "th": 2 if ctx.quick else 3})
    ctx.conform("RWLockTrace", binary, ctx.write_script("cover", concur.stretched(eps, ctx.rng)), cfg="ConcTrace.cfg", label="cover", timeout=600)
    eps = [concur.free({}, [program(ctx.rng) for _ in range(ctx.rng.choice([2, 2, 3, 4]))], ctx.rng, ctx.quick) for _ in range(24 if ctx.quick else 200)]
    ctx.conform("RWLockTrace", binary, ctx.write_script("free", concur.stretch(eps, ctx.rng)), cfg="ConcTrace.cfg", label="free", timeout=700)
