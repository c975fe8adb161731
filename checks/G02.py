"""The configuration store: map, queries, observers."""
import json

SEGS = ["a", "b", "ab", "abc", "B", "x.y", "1", "Name", "[1]", "a+b", "q?", "(z)", "$", "^", "\\d", "|", "a.c", "Icl Core"]


def b(s):
    return list(s.encode("latin1"))


def gen(rng, episodes):
    eps = []
    for _ in range(episodes):
        keys = ["/" + "/".join(rng.choice(SEGS) for _ in range(rng.randrange(1, 4))) for _ in range(rng.randrange(1, 10))]
        ep = [{"op": "new"}]
        for _ in range(rng.randrange(10, 60)):
            k, key, alt = rng.random(), rng.choice(keys), rng.randrange(2)
            val = rng.choice(["", "1", "no", "some text", " x ", "/a/b", "ä".encode("latin1").decode("latin1"), "line\nline", "'", "a=b"])
            if k < 0.35:
                ep.append({"op": "set", "k": b(key), "v": b(val), "alt": alt})
            elif k < 0.4:
                ep.append({"op": "insert", "k": b(key), "v": b(val)})
            elif k < 0.45:
                t = rng.choice(["i32", "u32", "i64", "bool", "str"])
                v = {"i32": rng.choice(["-2147483648", "0", "77"]), "u32": "4294967295", "i64": rng.choice(["9223372036854775807", "-9223372036854775808"]), "bool": rng.choice(["true", "false"]), "str": "x y"}[t]
                ep.append({"op": "setval", "k": b(key), "t": t, "v": b(v), "alt": alt})
            elif k < 0.6:
                ep.append({"op": "register", "o": rng.randrange(1, 5), "k": b(rng.choice([key, key, key + "/x", ""])), "alt": alt})
            elif k < 0.66:
                ep.append({"op": "unregister", "o": rng.randrange(1, 5), "alt": alt})
            elif k < 0.78:
                ep.append({"op": "get", "k": b(key if rng.random() < 0.7 else key + "/"), "alt": alt})
            elif k < 0.8:
                ep.append({"op": "dump"})
            else:
                x = rng.randrange(len(key) + 1)
                y = rng.randrange(x, len(key) + 1)
                kind = rng.choice([0, 0, 1, 2, 2])
                if rng.random() < 0.2:
                    x, y = 0, len(key)
                pre, suf = (key[:x], key[y:]) if kind != 1 else (key[:x], key[x:])
                ep.append({"op": "query", "pre": b(pre), "suf": b(suf), "kind": kind})
        eps.append(ep)
    return eps


def run(ctx):
    binary = ctx.compile("h_config", ["h_config.cpp"], libs=["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread"])
    m = ctx.model("ConfigMC", want_edges=True, expect_actions=["set", "insert", "register", "unregister", "get"])
    eps = ctx.edge_cover(m["edges"], lambda adj: {json.dumps([[], []]): {"op": "new"}}, max_len=150)
    for ep in eps:
        for o in ep:
            o["alt"] = ctx.rng.randrange(2)
    ctx.conform("ConfigTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover", timeout=300)
    eps = gen(ctx.rng, 300 if ctx.quick else 6000)
    ctx.conform("ConfigTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random", timeout=300, tlc_timeout=800)
