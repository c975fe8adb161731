"""Setting logging up, again and again."""
import json
import lg


def run(ctx):
    binary = lg.compile(ctx)
    m = ctx.model("LoggingMC", cfg="LoggingMCsetup.cfg" if ctx.quick else "LoggingMCsetupbig.cfg", want_edges=True)
    eps = [lg.expand(ctx.rng, ep) for ep in ctx.edge_cover(m["edges"], lambda adj: {json.dumps(m["edges"][0]["s"], sort_keys=True): {"op": "new"}}, max_len=40)]
    ctx.conform("LoggingTrace", binary, ctx.write_script("setup", eps), cfg="Trace.cfg", label="every configuration", timeout=600, tlc_timeout=800)
    eps = [lg.episode(ctx.rng, True) for _ in range(1000 if ctx.quick else 12000)]
    ctx.conform("LoggingTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random histories", timeout=600, tlc_timeout=800)
