"""Finalizable, AtScopeEnd, ExpectedType."""
import json


def run(ctx):
    binary = ctx.compile("h_guards", ["h_guards.cpp"])
    m = ctx.model("GuardsMC", want_edges=True, expect_actions=["fassign", "fassignf", "gpop", "tcmp"])
    init = json.dumps({"v": 0, "f": False, "g": [], "r": []}, sort_keys=True)
    eps = ctx.edge_cover(m["edges"], lambda adj: {init: {"op": "new"}})
    ctx.conform("GuardsTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover")
    eps, rng = [], ctx.rng
    for _ in range(100 if ctx.quick else 3000):
        ep, depth = [{"op": "new"}], 0
        for _ in range(40):
            k = rng.randrange(10)
            if k < 4:
                ep.append(rng.choice([{"op": "fnew", "v": rng.randrange(99)}, {"op": "fassign", "v": rng.randrange(-9, 99)}, {"op": "fassign", "v": rng.randrange(99)},
                                      {"op": "fassignf", "v": rng.randrange(99), "f": rng.random() < 0.5}, {"op": "fcopy"}, {"op": "ffinal"}]))
            elif k < 6 or depth == 0:
                ep.append({"op": "gpush"}); depth += 1
            elif k < 8:
                ep.append({"op": rng.choice(["genable", "gdisable"])})
            else:
                ep.append({"op": "gpop", "thrown": rng.random() < 0.4}); depth -= 1
        eps.append(ep)
    ctx.conform("GuardsTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random")
