"""Log files: appending, rotation, deletion of old ones."""
import json
import fl


def run(ctx):
    binary = fl.compile(ctx)
    m = ctx.model("FileLogMC", cfg="FileLogMC.cfg" if ctx.quick else "FileLogMCbig.cfg", want_edges=True, expect_actions=["open", "log", "close", "tick"])
    start = {json.dumps(d["s"], sort_keys=True): {"op": "new", "s": d["s"]["now"]} for d in m["edges"] if d["s"]["k"] == 0 and not d["s"]["w"] and d["s"]["now"] == 18320 * 86400 + 5 and not d["s"]["f"]}
    eps = ctx.edge_cover(m["edges"], lambda adj: start, max_len=60)
    for ep in eps:
        for o in ep:
            if o["op"] == "open":
                o.update(how=fl.how(ctx.rng, "a"), full=ctx.rng.randrange(2))
    ctx.conform("FileLogTrace", binary, ctx.write_script("model", eps), cfg="Trace.cfg", label="every history of a few days", timeout=700, tlc_timeout=800)
    ctx.conform("FileLogTrace", binary, ctx.write_script("random", [fl.episode(ctx.rng) for _ in range(600 if ctx.quick else 6000)]), cfg="Trace.cfg", label="random histories", timeout=600, tlc_timeout=800)
