"""Time spans and stamps: exact nanosecond arithmetic."""
import json

BND = [0, 1, -1, 2, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, -60, -3600, -86400, -86401, 2**31 - 1, 2**31, -2**31, 2**32, 2**32 + 1,
       253402300799, -253402300799, 10**12]
NS = [0, 1, -1, 999, 1000, 1001, 999999, 1000000, 1000001, 499999999, 500000000, 999999998, 999999999, -999, -1000, -999999, -1000000, -500000000,
      -999999998, -999999999]
NSX = NS + [1000000000, 1000000001, -1000000000, -1000000001, 1999999999, 2000000000, 2147483647, -2147483647, -2000000000]


def gen(rng, episodes, length):
    sec = lambda: rng.choice(BND + [rng.randrange(-100, 100), rng.randrange(-10**6, 10**6), rng.randrange(-2**35, 2**35)])
    ns = lambda wide=False: rng.choice((NSX if wide else NS) + [rng.randrange(-10**9 + 1, 10**9)] * 10)
    eps = []
    for _ in range(episodes):
        ep = [{"op": "new"}]
        for _ in range(length):
            k = rng.randrange(17)
            if k == 0 or len(ep) % 23 == 0:
                how = rng.choice(["ctor", "ctor", "ctor", "timespec", "sec", "csec", "msec", "cmsec", "usec", "cusec"])
                s = sec()
                if how in ("msec", "cmsec"):
                    s = rng.choice([s, s * 1000 + rng.choice([0, 1, -1, 999, -999, 500])])
                if how in ("usec", "cusec"):
                    s = rng.choice([s, s * 1000000 + rng.choice([0, 1, -1, 999999, -999999, 1000])])
                ep.append({"op": "span", "how": how, "s": s, "n": ns(True)})
            elif k in (1, 2):
                ep.append({"op": rng.choice(["add", "sub"]), "how": rng.randrange(2), "s": sec(), "n": ns(True)})
            elif k == 3:
                ep.append({"op": "subfrom", "s": sec(), "n": ns(True)})
            elif k == 4:
                ep.append({"op": "abs"})
            elif k in (5, 6):
                ep.append({"op": "span", "how": "ctor", "s": rng.choice([0, 0, 1, -1, rng.randrange(-100000, 100000)]), "n": ns()})
                op = rng.choice(["mul", "div"])
                p = rng.choice([1, 2, 3, 5, 7, 10, 100, 1000, rng.randrange(1, 5000)])
                q = rng.choice([1, 1, 2, 4, 8, 1024])
                if op == "mul" and rng.random() < 0.1:
                    p = 0
                ep.append({"op": op, "p": p * rng.choice([1, 1, -1]), "q": q})
            elif k in (7, 8):
                ep.append({"op": "cmp", "s": sec(), "n": ns(True)})
                ep.append({"op": "span", "how": "ctor", "s": ep[-1]["s"] + rng.choice([0, 0, 1, -1]), "n": rng.choice([ep[-1]["n"], ns()])})
                ep.append({"op": "cmp", "s": ep[-2]["s"], "n": ep[-2]["n"]})
            elif k in (9, 10):
                ep.append({"op": "get"})
            elif k == 11:
                how = rng.choice(["ctor", "timespec", "time_t", "ptime", "ptime="])
                n = abs(ns(how != "ptime"))
                ep.append({"op": "stamp", "how": how, "s": abs(sec()) % (253402300800 if how.startswith("pt") else 10**14),
                           "n": n // 1000 * 1000 if how.startswith("pt") else n})
            elif k == 12:
                ep.append({"op": rng.choice(["now", "future"]), "how": rng.randrange(2), "s": abs(sec()), "n": abs(ns()) // 1000 * 1000,
                           "ms": rng.choice([0, 1, 999, 1000, 1001, 4999, 10**6 + 1, 2**32, rng.randrange(10**10)])})
            elif k == 13:
                ep.append({"op": rng.choice(["tadd", "tsub"]), "how": rng.randrange(2)})
            elif k == 14:
                ep.append({"op": "tdiff", "rev": rng.random() < 0.5, "s": abs(sec()), "n": abs(ns(True))})
            elif k == 15:
                ep.append({"op": "tcmp", "s": abs(sec()), "n": abs(ns(True))})
                ep.append({"op": "stamp", "how": "timespec", "s": ep[-1]["s"] + rng.choice([0, 0, 1]), "n": rng.choice([ep[-1]["n"], abs(ns())])})
                ep.append({"op": "tcmp", "s": ep[-2]["s"], "n": ep[-2]["n"]})
            else:
                ep.append({"op": "tget"})
        # keep values far from the 64 bit limits
        eps.append(ep)
    return eps


def products(rng):
    """All pairs of boundary values."""
    eps = []
    S, N = [0, 1, -1, 60, -3600, 2**31], [0, 1, -1, 999999999, -999999999, 500000000]
    for s in S:
        for n in N:
            ep = [{"op": "new"}]
            for s2 in S:
                for n2 in N:
                    mk = {"op": "span", "how": "ctor", "s": s, "n": n}
                    ep += [mk, {"op": "cmp", "s": s2, "n": n2}, {"op": "add", "how": 0, "s": s2, "n": n2}, {"op": "get"},
                           mk, {"op": "sub", "how": 1, "s": s2, "n": n2}]
            eps.append(ep)
    return eps


def run(ctx):
    ctx.model("BigMC", timeout=120)
    binary = ctx.compile("h_time", ["h_time.cpp"], libs=["icl_core"])
    m = ctx.model("TimeMC", want_edges=True, timeout=300, expect_actions=["add", "sub", "subfrom", "abs", "tadd", "tsub", "tdiff"])
    z = json.dumps({"x": {"s": {"neg": False, "d": []}, "n": 0}, "t": {"s": {"neg": False, "d": []}, "n": 0}}, sort_keys=True)
    eps = ctx.edge_cover(m["edges"], lambda adj: {z: {"op": "new"}})
    ctx.conform("TimeTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover")
    ctx.conform("TimeTrace", binary, ctx.write_script("pairs", products(ctx.rng)), cfg="Trace.cfg", label="pairs")
    eps = gen(ctx.rng, 40 if ctx.quick else 600, 100 if ctx.quick else 300)
    ctx.conform("TimeTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random")
