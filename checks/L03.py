"""Log formats and the lines made with them."""
import lt


def run(ctx):
    binary = lt.compile(ctx)
    m = ctx.model("LogTextMC", cfg="LogTextMC.cfg" if ctx.quick else "LogTextMCbig.cfg", want_edges=True, expect_actions=["format"])
    ctx.conform("LogTextTrace", binary, ctx.write_script("formats", lt.every_format(m["edges"])), cfg="Trace.cfg", label="every format", timeout=600, tlc_timeout=800)
    ctx.conform("LogTextTrace", binary, ctx.write_script("random", lt.metadata(ctx.rng, 500 if ctx.quick else 5000)), cfg="Trace.cfg", label="random formats and messages", timeout=600, tlc_timeout=800)
