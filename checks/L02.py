"""Messages of several threads on their way to the outputs."""
import concur

LIBS = concur.LIBS + ["icl_core_logging"]


def shape(rng):
    """Outputs and streams: {wk, lv, at}, number of outputs, of streams."""
    n = rng.choice([1, 1, 2, 2, 3])
    wk = [rng.choice([1, 1, 1, 0]) for _ in range(n)]
    lv = [rng.choice([0, 2, 2, 4]) for _ in range(n)]
    s = rng.choice([1, 1, 2])
    at = []
    for k in range(s):
        at += ([0] if k else []) + sorted(rng.sample(range(1, n + 1), rng.randrange(1 if k == 0 else 0, n + 1)))
    return {"wk": ",".join(map(str, wk)), "lv": ",".join(map(str, lv)), "at": ",".join(map(str, at))}, wk, s


def message(rng, s):
    return {"f": "log", "s": rng.randrange(1, s + 1), "lv": rng.choice([2, 2, 3, 4, 5]), "n": rng.choice([0, 1, 3, 40, 300])}


def other(rng, n, s):
    r = rng.random()
    if r < 0.4:
        return {"f": rng.choice(["attach", "detach"]), "s": rng.randrange(1, s + 1), "o": rng.randrange(1, n + 1)}
    return {"f": "format", "o": 1, "lv": rng.randrange(2)}


def programs(rng, wk, s):
    n = len(wk)
    own = [{"f": "start", "o": k + 1} for k in range(n) if wk[k] or rng.random() < 0.3]
    for _ in range(rng.randrange(0, 4)):
        own.insert(rng.randrange(len(own) + 1), message(rng, s))
    if rng.random() < 0.8:
        for k in range(n):
            own.append({"f": "shutdown", "o": k + 1})
            if rng.random() < 0.3:
                own.append(message(rng, s))
            if rng.random() < 0.3:
                own.append({"f": "start", "o": k + 1})
    progs = [own]
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        progs.append([message(rng, s) for _ in range(rng.randrange(1, 4))])
    for _ in range(rng.choice([0, 0, 1, 2])):
        # formats are changed by one thread
        o = other(rng, n, s)
        p = progs[1] if o["f"] == "format" else rng.choice(progs[1:])
        p.insert(rng.randrange(len(p) + 1), o)
    return progs


def run(ctx):
    binary = ctx.compile_conc("h_logqueue", ["h_logqueue.cpp"], libs=LIBS, aside=("icl_core_config",))
    covers = {"LogQueueMC": {"wk": "1", "lv": "2", "at": "1"}, "LogQueueMCdirect": {"wk": "0", "lv": "2", "at": "1"},
              "LogQueueMCtwo": {"wk": "1,0", "lv": "2,4", "at": "1,2"}}
    for cfg, sh in covers.items():
        if cfg == "LogQueueMCtwo" and ctx.quick:
            continue
        m = ctx.model("LogQueueMC", cfg=cfg + ".cfg", want_edges=True, expect_actions=["do", "lin"], timeout=800)
        eps = concur.det_cover(ctx, m["edges"], dict(sh, op="new", mode="det", th=2))
        ctx.conform("LogQueueTrace", binary, ctx.write_script("cover", eps), cfg="ConcTrace.cfg", label=cfg, timeout=600)
    r = ctx.rng
    eps = []
    for i in range(300 if ctx.quick else 4000):
        sh, wk, s = shape(r)
        n, th = len(wk), r.choice([2, 3, 4])
        ep = [dict(sh, op="new", mode="det", th=th)]
        for _ in range(r.randrange(5, 40)):
            x = r.random()
            o = dict(message(r, s) if x < 0.45 else other(r, n, s) if x < 0.6 else {"f": r.choice(["hold", "free", "free"]), "o": r.randrange(1, n + 1)} if x < 0.8 else
                     {"f": r.choice(["start", "start", "shutdown"]), "o": r.randrange(1, n + 1)}, op="do")
            o["th"] = 1 if o["f"] in ("start", "shutdown", "format") else r.randrange(1, th + 1)
            ep.append(o)
        eps.append(ep)
    ctx.conform("LogQueueTrace", binary, ctx.write_script("histories", eps), cfg="ConcTrace.cfg", label="histories", timeout=600)
    eps = []
    for i in range(40 if ctx.quick else 400):
        sh, wk, s = shape(r)
        eps.append(concur.free(sh, programs(r, wk, s), r, ctx.quick, n=24 if ctx.quick else 300, dfs=(0,) if i % 8 == 0 else (), mem=i % 4 != 3))
    ctx.conform("LogQueueTrace", binary, ctx.write_script("free", eps), cfg="ConcTrace.cfg", label="free", timeout=700)
