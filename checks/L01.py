"""Which outputs get a log message."""
import json
import lg


def run(ctx):
    binary = lg.compile(ctx)
    m = ctx.model("LoggingMC", cfg="LoggingMC.cfg" if ctx.quick else "LoggingMCbig.cfg", want_edges=True)
    eps = [lg.expand(ctx.rng, ep) for ep in ctx.edge_cover(m["edges"], lambda adj: {json.dumps(m["edges"][0]["s"], sort_keys=True): {"op": "new"}}, max_len=150)]
    ctx.conform("LoggingTrace", binary, ctx.write_script("levels", eps), cfg="Trace.cfg", label="every assignment of levels", timeout=600, tlc_timeout=800)
    eps = [lg.episode(ctx.rng, False) for _ in range(800 if ctx.quick else 8000)]
    ctx.conform("LoggingTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random histories", timeout=600, tlc_timeout=800)
