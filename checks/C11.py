"""Depth buffers and stamped data."""
import json


def run(ctx):
    binary = ctx.compile("h_depth", ["h_depth.cpp"], libs=["icl_core"])
    m = ctx.model("DepthBufferMC", want_edges=True, timeout=200, expect_actions=["update", "reset"])
    inits = lambda adj: {json.dumps({"c": [[], []], "o": o}, sort_keys=True): {"op": "new", "n": 2, "o": o} for o in ("lt", "gt")}
    eps = ctx.edge_cover(m["edges"], inits)
    ctx.conform("DepthBufferTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover")
    rng = ctx.rng
    eps = []
    for _ in range(40 if ctx.quick else 800):
        n = rng.choice([0, 1, 2, 5, 20])
        ep = [{"op": "new", "n": n, "o": rng.choice(["lt", "gt"])}]
        for _ in range(60):
            r = rng.random()
            if r < 0.5 and n:
                ep.append({"op": "update", "i": rng.randrange(n), "v": rng.randrange(-6, 7)})
            elif r < 0.53:
                ep.append({"op": "reset"})
            elif r < 0.7:
                ep.append({"op": "stamp", "how": rng.choice(["data", "header", "both", "noseq"]), "v": rng.randrange(1000), "frame": rng.choice(["map", "base%20link", "x"]),
                           "t": rng.randrange(10**6), "seq": rng.choice([0, 1, 2**31 - 1, 77])})
            elif r < 0.8:
                ep.append({"op": "data", "v": rng.randrange(1000)})
            elif r < 0.9:
                ep.append({"op": "header", "seq": rng.randrange(1000), "dsin": rng.choice([0, 5, 2**31 - 1]), "frame": rng.choice(["a", "b"])})
            else:
                ep.append({"op": "print"})
        eps.append(ep)
    ctx.conform("DepthBufferTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random")
