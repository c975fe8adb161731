"""What is streamed into a message."""
import lt


def run(ctx):
    binary = lt.compile(ctx)
    m = ctx.model("LogTextMC", cfg="LogTextMC.cfg" if ctx.quick else "LogTextMCbig.cfg", want_edges=True, expect_actions=["message"])
    ctx.conform("LogTextTrace", binary, ctx.write_script("pieces", lt.every_message(m["edges"], ctx.rng)), cfg="Trace.cfg", label="every message of a few pieces", timeout=600, tlc_timeout=800)
    ctx.conform("LogTextTrace", binary, ctx.write_script("random", lt.messages(ctx.rng, 500 if ctx.quick else 5000)), cfg="Trace.cfg", label="random messages", timeout=600, tlc_timeout=800)
