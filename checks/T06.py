"""Periods of a periodic thread."""
import concur


def body(rng, P):
    p = []
    for _ in range(rng.randrange(2, 7)):
        p.append({"f": "wait", "us": 0})
        k = rng.random()
        if k < 0.45:
            p.append({"f": "busy", "us": rng.choice([1, P // 3, P - 1, P, P + 1, 2 * P, 2 * P + P // 2, 5 * P - 1])})
        elif k < 0.6:
            p.append({"f": "setp", "us": period(rng)})
    if rng.random() < 0.3:
        p.append({"f": "loop", "us": 0})
    return p


def period(rng):
    return rng.choice([1, 7, 100, 250, 1000, 999999, 1000000, 1000001, 1500000, 2999999, rng.randrange(1, 4000000)])


def owner(rng, P, bodysets, loops):
    p = [{"f": "start", "us": 0}]
    for _ in range(rng.randrange(0, 4)):
        k = rng.random()
        if k < 0.4:
            p.append({"f": "busy", "us": rng.choice([1, P // 2, P, 2 * P + 1, 4 * P])})
        elif k < 0.6 and not bodysets:
            p.append({"f": "setp", "us": period(rng)})
        elif k < 0.7 and not bodysets:
            p.append({"f": "period", "us": 0})
        elif k < 0.8:
            p.append({"f": "jump", "us": rng.choice([-7200000000, 3600000000])})
        else:
            p += [{"f": "stop", "us": 0}] + ([{"f": "setp", "us": period(rng)}] if rng.random() < 0.5 else []) + [{"f": "start", "us": 0}]
    if loops or rng.random() < 0.5:
        p.append({"f": rng.choice(["stop", "del"]), "us": 0})
    return p


def run(ctx):
    binary = ctx.compile_conc("h_periodic", ["h_periodic.cpp"], libs=concur.LIBS)
    m = ctx.model("PeriodicMC", cfg="PeriodicMC.cfg" if ctx.quick else "PeriodicMCbig.cfg", want_edges=True, expect_actions=["do", "lin", "ret", "tick"])
    eps = concur.det_cover(ctx, m["edges"], {"op": "new", "mode": "det", "th": 2, "p": 200})
    ctx.conform("PeriodicTrace", binary, ctx.write_script("cover", eps), cfg="ConcTrace.cfg", label="cover", timeout=600)
    # controlled: what waits goes on exactly at the end of its period
    eps = []
    for i in range(150 if ctx.quick else 3000):
        P, unit = (period(ctx.rng), 1000) if i % 3 else (ctx.rng.choice([1, 999, 1001, 123456, 100000]), 1)
        low = P
        ep = [{"op": "new", "mode": "det", "th": 2, "p": P, "unit": unit}, {"op": "do", "th": 2, "f": "start", "us": 0}]
        for _ in range(ctx.rng.randrange(4, 30)):
            k = ctx.rng.random()
            if k < 0.45:
                ep.append({"op": "tick", "us": ctx.rng.choice([1, P // 3 + 1, P // 2 + 1, P, P + 1, 2 * P, 2 * P + P // 2, ctx.rng.randrange(1, 4 * P + 1)])})
                ep[-1]["us"] = min(ep[-1]["us"], 100 * low)     # a looping body must not take too many steps
            elif k < 0.85:
                ep.append({"op": "do", "th": 1, "f": "wait", "us": 0})
            elif k < 0.9:
                P = period(ctx.rng) if unit == 1000 else ctx.rng.choice([1, 999, 1001, 2047, 123456])
                low = min(P, low)
                ep.append({"op": "do", "th": ctx.rng.choice([1, 2]), "f": "setp", "us": P})
            elif k < 0.93:
                ep.append({"op": "do", "th": ctx.rng.choice([1, 2]), "f": "period", "us": 0})
            elif k < 0.96:
                ep.append({"op": "do", "th": 2, "f": "jump", "us": ctx.rng.choice([-7200000000, 3600000000])})
            elif k < 0.98:
                ep += [{"op": "do", "th": 2, "f": f, "us": 0} for f in ("stop", "start")]
            else:
                ep += [{"op": "do", "th": 1, "f": "loop", "us": 0}, {"op": "tick", "us": min(3 * P, 100 * low)}]
        eps.append(ep)
    ctx.conform("PeriodicTrace", binary, ctx.write_script("periods", eps), cfg="ConcTrace.cfg", label="periods", timeout=600)
    eps = []
    for i in range(60 if ctx.quick else 400):
        P = period(ctx.rng)
        b = body(ctx.rng, P)
        eps.append(concur.free({"p": P}, [b, owner(ctx.rng, P, any(o["f"] == "setp" for o in b), b[-1]["f"] == "loop")], ctx.rng, ctx.quick, n=60 if ctx.quick else 600))
    ctx.conform("PeriodicTrace", binary, ctx.write_script("free", eps), cfg="ConcTrace.cfg", label="free", timeout=700)
