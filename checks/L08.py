"""Datagrams: one for each message, and its items can be read back whatever their texts are."""
import rc


def run(ctx):
    binary = rc.compile(ctx)
    m = ctx.model("DatagramMC", cfg="DatagramMC.cfg" if ctx.quick else "DatagramMCbig.cfg", want_edges=True)
    by = {}
    for d in m["edges"]:
        by.setdefault(tuple(d["s"]), []).append(d["e"])
    eps = []
    for sys, es in sorted(by.items()):
        for i in range(0, len(es), 20):
            ep = [{"op": "new", "s": rc.FIRST}, {"op": "make", "k": "udp", "sys": list(sys), "lev": 0, "rot": 0}, {"op": "tick", "s": rc.FIRST + 7, "n": 5000}]
            for e in es[i:i + 20]:
                ep.append({"op": "push", "l": 2, "s": [115], "c": [], "o": e["o"], "d": [100], "f": [102], "n": 7, "t": e["t"]})
            eps.append(ep + [{"op": "sync"}])
    ctx.conform("RecordsTrace", binary, ctx.write_script("model", eps), cfg="Trace.cfg", label="every short text", timeout=700, tlc_timeout=800)
    ctx.conform("RecordsTrace", binary, ctx.write_script("random", [rc.episode(ctx.rng, "udp") for _ in range(300 if ctx.quick else 2000)]), cfg="Trace.cfg", label="random messages", timeout=600, tlc_timeout=800)
