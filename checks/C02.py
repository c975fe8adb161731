"""Union-find: the partition generated by the merges."""
import json


def gen(rng, episodes, quick):
    eps = []
    for _ in range(episodes):
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20])
        ep = [{"op": "new", "c": n}]
        for _ in range(rng.randrange(10, 60)):
            k = rng.random()
            hot = max(1, n)
            if k < 0.6:
                # balanced tournaments build high ranks; random picks and chains do the rest
                if rng.random() < 0.3:
                    s = 1 << rng.randrange(4)
                    x = rng.randrange(hot)
                    ep.append({"op": "merge", "x": x, "y": (x + s) % hot})
                else:
                    ep.append({"op": "merge", "x": rng.randrange(hot), "y": rng.randrange(hot)})
            elif k < 0.8:
                ep.append({"op": "find", "x": rng.randrange(hot)})
            elif k < 0.86:
                c = rng.choice([0, 1, 1, 2, 3])
                n += c
                ep.append({"op": "grow", "c": c})
            elif k < 0.93:
                ep.append(rng.choice([{"op": "find", "x": n}, {"op": "merge", "x": n, "y": 0}, {"op": "merge", "x": 0, "y": n + rng.randrange(3)}]))
            else:
                ep.append({"op": "copy"})
            if n > 40:
                break
        eps.append(ep)
    return eps


def run(ctx):
    binary = ctx.compile("h_unionfind", ["h_unionfind.cpp"])
    m = ctx.model("UnionFindMC", want_edges=True, expect_actions=["MMerge", "MFind", "MGrow"])
    inits = lambda adj: {d: {"op": "new", "c": c} for d in adj for c in range(1, 5)
                         if d == json.dumps({"p": list(range(c)), "r": [0] * c}, sort_keys=True)}
    eps = ctx.edge_cover(m["edges"], inits)
    ctx.conform("UnionFindTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover")
    eps = gen(ctx.rng, 150 if ctx.quick else 2500, ctx.quick)
    ctx.conform("UnionFindTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random", tlc_timeout=800)
