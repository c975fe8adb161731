"""Passes of a dispatch thread over its operations."""
import concur


def add(rng, P):
    return {"f": "add", "k": rng.choice([1, 1, 1, 2, 2, 3, 4] if rng.random() < 0.5 else [1, 1, 2]), "us": max(10, rng.choice([1, P // 3, P - 1, P, P + 1, 2 * P + P // 2]))}


def owner(rng, P, alone):
    p = [add(rng, P) for _ in range(rng.randrange(0, 5))]
    for _ in range(rng.randrange(1, 3)):
        p += [{"f": "start"}] + ([{"f": "busy", "us": rng.choice([1, P, 2 * P + 1, 4 * P])}] if rng.random() < 0.7 else [])
        p += [{"f": "stop"}, {"f": "join"}] + [add(rng, P) for _ in range(rng.randrange(0, 2))]
    if alone and rng.random() < 0.6:
        p = p[:p.index({"f": "stop"})] + [{"f": "del"}]
    return p


def run(ctx):
    binary = ctx.compile_conc("h_dispatch", ["h_dispatch.cpp"], libs=concur.LIBS + ["icl_core_dispatch"])
    m = ctx.model("DispatchMC", cfg="DispatchMC.cfg" if ctx.quick else "DispatchMCbig.cfg", want_edges=True, expect_actions=["do", "lin", "ret", "tick"])
    eps = concur.det_cover(ctx, m["edges"], {"op": "new", "mode": "det", "th": 2, "p": 200})
    ctx.conform("DispatchTrace", binary, ctx.write_script("cover", eps), cfg="ConcTrace.cfg", label="cover", timeout=600)
    r = ctx.rng
    eps = []
    for _ in range(100 if ctx.quick else 2000):
        P = r.choice([1, 7, 100, 1000, 999999, 1000000, 1500000])
        ep = [{"op": "new", "mode": "det", "th": 2, "p": P}]
        for _ in range(r.randrange(1, 4)):
            ep += [dict(add(r, P), op="do", th=1) for _ in range(r.randrange(0, 5))] + [{"op": "do", "th": 1, "f": "start"}]
            for _ in range(r.randrange(0, 10)):
                ep.append({"op": "tick", "us": r.choice([1, P // 2 + 1, P, P + 1, 3 * P, r.randrange(1, 5 * P + 1)])})
            if r.random() < 0.3:
                ep += [{"op": "do", "th": 2, "f": "stop"}]
            ep += [{"op": "do", "th": 1, "f": "stop"}, {"op": "tick", "us": 3 * P}, {"op": "do", "th": 1, "f": "join"}, {"op": "tick", "us": 6 * P}]
        eps.append(ep)
    ctx.conform("DispatchTrace", binary, ctx.write_script("periods", eps), cfg="ConcTrace.cfg", label="periods", timeout=600)
    eps = []
    for i in range(24 if ctx.quick else 200):
        P = r.choice([7, 100, 1000, 1000000])
        n = r.choice([1, 1, 2])
        progs = [owner(r, P, n == 1)] + [[{"f": "busy", "us": r.choice([1, P, 3 * P])}, {"f": "stop"}] for _ in range(n - 1)]
        eps.append(concur.free({"p": P}, progs, r, ctx.quick, n=40 if ctx.quick else 400, dfs=(0,) if i % 8 == 0 else ()))
    ctx.conform("DispatchTrace", binary, ctx.write_script("free", eps), cfg="ConcTrace.cfg", label="free", timeout=700)
