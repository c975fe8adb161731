"""Databases of messages: every message is one row, whatever its texts; a database is moved aside when the day has changed."""
import json
import rc


def run(ctx):
    binary = rc.compile(ctx)
    m = ctx.model("RecordsMC", cfg="RecordsMC.cfg" if ctx.quick else "RecordsMCbig.cfg", want_edges=True)
    first = json.dumps(next(d["s"] for d in m["edges"] if d["s"][0] == "" and d["s"][2] == 0 and d["s"][3]["s"] == rc.FIRST and not d["s"][6]), sort_keys=True)
    eps = ctx.edge_cover(m["edges"], lambda adj: {first: {"op": "new", "s": rc.FIRST}}, max_len=60)
    for ep in eps:
        for o in ep:
            if o["op"] == "make":
                o.update(k="sql", sys=[], lev=2, rot=1 if o["rot"] else 0)
            elif o["op"] == "push":
                o.update(s=[115], c=[], o=[], d=[], f=[102], t=[o["t"]])
        if any(o["op"] == "make" for o in ep):
            ep.append({"op": "sync"})
    ctx.conform("RecordsTrace", binary, ctx.write_script("model", eps), cfg="Trace.cfg", label="every history of a few days", timeout=700, tlc_timeout=800)
    ctx.conform("RecordsTrace", binary, ctx.write_script("random", [rc.episode(ctx.rng, "sql") for _ in range(300 if ctx.quick else 4000)]), cfg="Trace.cfg", label="random texts and days", timeout=600, tlc_timeout=800)
