"""Small containers and helper functions."""
import itertools


def gen(rng, episodes):
    eps = []
    names = ["a", "b", "ab", "", "A", "abc", "eAC_ADD", "x y", "a "]
    for _ in range(episodes):
        ep = [{"op": "new"}]
        ns = nv = 0
        w = h = 0
        for _ in range(60):
            k = rng.randrange(11)
            if k == 0:
                v = rng.randrange(6)
                r = rng.random()
                if r < 0.5 or ns == 0:
                    ep.append({"op": "spush", "v": v}); ns += 1
                elif r < 0.65:
                    ep.append({"op": "spop"}); ns -= 1
                elif r < 0.75:
                    ep.append({"op": "stop", "v": v})
                else:
                    ep.append({"op": "sfind", "v": v})
            elif k in (1, 2, 3):
                r = rng.random()
                d = {"aw": rng.randrange(6), "ah": rng.randrange(6), "v": rng.choice([0, 3, 4, 9])}
                if r < 0.35 and w and h:
                    ep.append({"op": "aput", "x": rng.randrange(w), "y": rng.randrange(h), "v": rng.randrange(1, 50)})
                elif r < 0.45:
                    ep.append({"op": "afill", "v": d["v"]})
                elif r < 0.55:
                    ep.append({"op": "acopy"})
                else:
                    ep.append(dict(d, op=rng.choice(["anew", "aresize", "aresize", "aassign", "aswap"])))
                    w, h = d["aw"], d["ah"]
            elif k in (4, 5, 6):
                r, v = rng.random(), rng.randrange(9)
                if r < 0.3:
                    ep.append({"op": "vpush", "v": v}); nv += 1
                elif r < 0.4 and nv:
                    ep.append({"op": "vpop"}); nv -= 1
                elif r < 0.6:
                    n = rng.randrange(4)
                    ep.append({"op": "vins", "p": rng.randrange(nv + 1), "n": n, "v": v}); nv += n
                elif r < 0.75:
                    p = rng.randrange(nv + 1); q = rng.randrange(p, nv + 1)
                    ep.append({"op": "verase", "p": p, "q": q}); nv -= q - p
                else:
                    nv = rng.randrange(8)
                    ep.append({"op": rng.choice(["vresize", "vassign"]), "n": nv, "v": v})
            elif k == 7:
                a = sorted(rng.sample(range(10), rng.randrange(7)))
                b = a if rng.random() < 0.15 else sorted(rng.sample(range(10), rng.randrange(7)))
                if rng.random() < 0.3 and a:
                    b = sorted(rng.sample(a, rng.randrange(len(a) + 1)))
                if rng.random() < 0.5:
                    a, b = b, a
                ep.append({"op": "setrel", "a": a, "b": b})
            elif k == 8:
                ep.append({"op": "bits", "x": rng.choice([0, 1, 255, 128, rng.randrange(256), rng.randrange(65536)]), "m": rng.choice([0, 1, 2, 128, 3, 255, 1 << rng.randrange(16), rng.randrange(65536)])})
            else:
                d = rng.sample(names, rng.randrange(len(names)))
                if rng.random() < 0.2 and d:
                    d.append(d[0])
                enc = []
                for x in d:
                    enc += list(x.encode()) + [0]
                ep.append({"op": "enum", "d": enc, "s": list(rng.choice(names + d).encode())})
        eps.append(ep)
    # all pairs of subsets of {0..3}
    subs = [list(c) for n in range(5) for c in itertools.combinations(range(4), n)]
    eps.append([{"op": "new"}] + [{"op": "setrel", "a": a, "b": b} for a in subs for b in subs])
    eps.append([{"op": "new"}] + [{"op": "bits", "x": x, "m": m} for x in range(0, 256, 5) for m in [0, 1, 2, 4, 128, 255, 3, 192]])
    return eps


def run(ctx):
    binary = ctx.compile("h_helpers", ["h_helpers.cpp"], libs=["icl_core"])
    m = ctx.model("HelpersMC", want_edges=True, expect_actions=["spush", "sfind", "aresize", "aput", "vins", "verase"])
    import json
    init = json.dumps({"s": [], "w": 0, "h": 0, "c": [], "v": []}, sort_keys=True)
    eps = ctx.edge_cover(m["edges"], lambda adj: {init: {"op": "new"}}, max_len=5000)
    ctx.conform("HelpersTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover")
    ctx.conform("HelpersTrace", binary, ctx.write_script("random", gen(ctx.rng, 100 if ctx.quick else 2500)), cfg="Trace.cfg", label="random", tlc_timeout=800)
