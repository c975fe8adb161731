"""Key/value directory and its query iterators."""


def gen(rng, episodes):
    eps = []
    segs = ["a", "b", "ab", "abc", "B", "x.y", "1", "", "Name", "[1]", "a+b", "q?", "(z)", "$", "^", "\\d", "|"]
    for _ in range(episodes):
        keys = ["/".join(rng.choice(segs) for _ in range(rng.randrange(1, 4))) for _ in range(rng.randrange(1, 14))]
        keys = ["/" + k if rng.random() < 0.7 else k for k in keys]
        enc = lambda s: list(s.encode("latin1"))
        ep = [{"op": "new"}]
        for _ in range(rng.randrange(8, 40)):
            k, key = rng.random(), rng.choice(keys)
            if k < 0.5:
                ep.append({"op": "insert", "k": enc(key), "v": rng.randrange(1000)})
            elif k < 0.65:
                ep.append({"op": "get", "k": enc(key if rng.random() < 0.8 else key + "/")})
            else:
                a = rng.randrange(len(key) + 1)
                b = rng.randrange(a, len(key) + 1)
                kind = rng.choice([0, 0, 1, 2, 2])
                if rng.random() < 0.2:
                    a, b = 0, len(key)
                pre, suf = (key[:a], key[b:]) if kind != 1 else (key[:a], key[a:])
                ep.append({"op": "query", "pre": enc(pre), "suf": enc(suf), "kind": kind})
        eps.append(ep)
    return eps


def run(ctx):
    binary = ctx.compile("h_keyvalue", ["h_keyvalue.cpp"])
    m = ctx.model("KeyValueMC", want_edges=True, expect_actions=["insert", "get", "query"])
    eps = ctx.edge_cover(m["edges"], lambda adj: {"[]": {"op": "new"}})
    ctx.conform("KeyValueTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover")
    eps = gen(ctx.rng, 200 if ctx.quick else 4000)
    ctx.conform("KeyValueTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random", tlc_timeout=800)
