"""Scripts for the concurrent harnesses (harness/conc.h)."""
import json

LIBS = ["icl_core", "icl_core_thread"]


def contract(edges, hidden=("lin", "ret")):
    """The transitions between states in which nothing can go on by itself: one visible operation and everything it sets off."""
    adj = {}
    for d in edges:
        s, t = json.dumps(d["s"], sort_keys=True), json.dumps(d["t"], sort_keys=True)
        adj.setdefault(s, []).append((d["e"], t))
        adj.setdefault(t, [])
    memo = {}

    def rest(s):
        """Resting states reachable through hidden steps."""
        if s in memo:
            return memo[s]
        out, seen, todo = set(), {s}, [s]
        while todo:
            x = todo.pop()
            h = [t for e, t in adj[x] if e["op"] in hidden]
            if not h:
                out.add(x)
            for t in h:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        memo[s] = out
        return out
    res = []
    for s, es in adj.items():
        if any(e["op"] in hidden for e, t in es):
            continue
        for e, t in es:
            for q in sorted(rest(t)):
                res.append({"s": json.loads(s), "e": e, "t": json.loads(q)})
    return res


def initial(edges, first):
    """{state key: first operation} for the one initial state (the source of the first printed edge)."""
    return lambda adj: {json.dumps(edges[0]["s"], sort_keys=True): first}


def det_cover(ctx, edges, first, max_len=120):
    return ctx.edge_cover(contract(edges), initial(edges, first), max_len=max_len)


def free(first, programs, rng, quick, dfs=(0, 1), n=None, mem=True):
    """An episode: programs[i] is the program of thread i+1; with runs of several policies."""
    n = n or (240 if quick else 2000)
    ep = [dict(first, op="new", mode="free", th=len(programs))]
    for i, p in enumerate(programs):
        for o in p:
            ep.append(dict({"op": "p", "th": i + 1}, **o))
    seed = rng.randrange(1 << 30)
    ep.append({"op": "run", "policy": "random", "seed": seed, "n": n, "mem": 1 if mem else 0})
    for d in (1, 2, 3):
        ep.append({"op": "run", "policy": "pct", "seed": seed + d, "n": max(4, n // 4), "depth": d, "mem": 1 if mem else 0})
    for m in dfs:
        ep.append({"op": "run", "policy": "dfs", "seed": seed, "n": 400 if quick else 8000, "depth": 2, "mem": m})
    return ep


def stretch(eps, rng, scales=(1, 1, 1000, 123457, 700001, 6000000), **more):
    """The same episodes with every duration multiplied: up to a second, several seconds, minutes (within the 31 bits of microseconds the specification has)."""
    out = []
    for ep in eps:
        total = sum(abs(o["us"]) for o in ep if "us" in o)
        f = rng.choice(scales)
        while f * total > 1900000000:
            f //= 2
        out.append([dict(o, us=o["us"] * f) if "us" in o and o.get("f") != "start" else o for o in ep])
        out[-1][0] = dict(out[-1][0], **{k: v * f for k, v in more.items()})
    return out


def stretched(eps, rng):
    """Every episode as it is, with durations below a second and with durations of seconds."""
    return eps + stretch(eps, rng, (300007, 700001)) + stretch(eps, rng, (6000000, 6000000, 40000000))
