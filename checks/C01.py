"""Ring buffer: bounded FIFO."""
import random


def gen(rng, episodes, length):
    """Random scripts, biased to the boundaries (empty, full, wrap) with larger capacities."""
    eps, v = [], 1
    for _ in range(episodes):
        cap = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33])
        ep = [{"op": "new", "c": cap}]
        size = 0
        for _ in range(length):
            k = rng.random()
            fill = rng.choice(["up", "down", "any"])
            if k < 0.45:
                ep.append({"op": "write", "v": v, "ow": rng.random() < 0.4})
                v += 1
            elif k < 0.60:
                ep.append({"op": rng.choice(["read", "skip", "read", "front"])})
            elif k < 0.70:
                ep.append({"op": "skipn", "n": rng.choice([0, 1, 2, rng.randrange(cap + 3)])})
            elif k < 0.80:
                ep.append({"op": "fake", "n": rng.choice([0, 1, 2, cap, cap + 1, rng.randrange(cap + 3)]), "v": v})
                v += cap + 2
            elif k < 0.84:
                cap = rng.choice([cap, cap + 1, max(0, cap - 1), cap // 2, cap * 2 % 67, rng.randrange(40)])
                ep.append({"op": "setcap", "c": cap})
            elif k < 0.90:
                ep.append({"op": "set", "k": rng.randrange(cap + 2), "v": v})
                v += 1
            elif k < 0.92:
                ep.append({"op": "clear"})
            elif k < 0.96:
                ep.append({"op": "copy"})
            else:
                ep.append({"op": "assign", "c": rng.randrange(6), "n": rng.randrange(6)})
        eps.append(ep)
    return eps


def run(ctx):
    binary = ctx.compile("h_ringbuffer", ["h_ringbuffer.cpp"])
    m = ctx.model("RingBufferMC", want_edges=True, timeout=300, expect_actions=["MWrite", "MRead", "MSkipN", "MSetCap", "MFake", "MAssign"])
    inits = lambda adj: {d: {"op": "new", "c": c} for d in adj for c in range(4)
                         if d == __import__("json").dumps({"c": c, "b": [], "w": 0, "r": 0}, sort_keys=True)}
    edges = [e for e in m["edges"] if e["e"]["op"] != "new"]
    eps = ctx.edge_cover(edges, inits)
    script = ctx.write_script("cover", eps)
    ctx.conform("RingBufferTrace", binary, script, cfg="Trace.cfg", label="cover")
    eps = gen(ctx.rng, 60 if ctx.quick else 600, 120 if ctx.quick else 300)
    script = ctx.write_script("random", eps)
    ctx.conform("RingBufferTrace", binary, script, cfg="Trace.cfg", label="random")
