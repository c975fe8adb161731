"""Sequence numbers: cyclic counting and comparison."""
import json

TYPES = {1: (5, 0, 0), 2: (6, 0, 0), 3: (10, 3, 3), 4: (255, 0, 0), 5: (7, 2, 4), 6: (11, -4, -4), 7: (16, 8, 9), 8: (40, 21, 30),
         9: (65535, 0, 0), 10: (2000000000, 0, 0), 11: (2000000001, 1000000000, 1500000000), 12: (32767, 0, 32766),
         13: (2000000000, 1999999000, 1999999000)}


def gen(rng, episodes):
    eps = []
    for _ in range(episodes):
        t = rng.choice(list(TYPES))
        mx, mn, init = TYPES[t]
        cyc = mx - mn
        v = rng.choice([init, mn, mx - 1, mn + cyc // 2, rng.randrange(mn, mx)])
        d = rng.random() < 0.3
        ep = [{"op": "new", "t": t, "def": d, "b": v}]
        v = init if d else v
        for _ in range(40):
            k = rng.random()
            if k < 0.3:
                ep.append({"op": "inc", "post": rng.random() < 0.5})
                v = mn if v + 1 >= mx else v + 1
            elif k < 0.45:
                v = rng.choice([mn, mx - 1, mx - 2, rng.randrange(mn, mx)])
                ep.append({"op": "set", "b": v})
            else:
                dist = rng.choice([0, 1, -1, 2, cyc // 2 - 1, cyc // 2, cyc // 2 + 1, -(cyc // 2 - 1), cyc - 2, rng.randrange(cyc)])
                ep.append({"op": "cmp", "b": mn + (v - mn + dist) % cyc})
        eps.append(ep)
    return eps


def run(ctx):
    binary = ctx.compile("h_seqnum", ["h_seqnum.cpp"])
    m = ctx.model("SequenceNumberMC", want_edges=True, expect_actions=["inc", "set", "cmp"])
    inits = lambda adj: {d: {"op": "new", "t": t, "def": True, "b": 0} for t in TYPES
                         for d in [json.dumps({"t": t, "v": TYPES[t][2]}, sort_keys=True)] if d in adj}
    eps = ctx.edge_cover(m["edges"], inits)
    # every pair of the 8 bit type as well
    full = [[{"op": "new", "t": 4, "def": False, "b": v}] + [{"op": "cmp", "b": b} for b in range(0, 255, 1 if not ctx.quick else 7)] + [{"op": "inc", "post": v % 2 == 0}]
            for v in range(255)]
    ctx.conform("SequenceNumberTrace", binary, ctx.write_script("cover", eps + full), cfg="Trace.cfg", label="cover")
    ctx.conform("SequenceNumberTrace", binary, ctx.write_script("random", gen(ctx.rng, 300 if ctx.quick else 5000)), cfg="Trace.cfg", label="random")
