"""File paths and environment references."""
import json


def b(s):
    return list(s.encode("latin1"))


PARTS = ["a", "b", "usr", ".", ".", "..", "..", "..", "", "x.y", ".hid", "a.b.c", "...", "file.", "ä b", "tar.gz", "a:", "c:x"]


def path(rng):
    s = rng.choice(["", "/", "/", "./", "../", "//"]) + "/".join(rng.choice(PARTS) for _ in range(rng.randrange(0, 9))) + rng.choice(["", "", "", "/"])
    if rng.random() < 0.2:
        s = "".join("\\" if c == "/" and rng.random() < 0.5 else c for c in s)
    return s


def absdir(rng):
    return "/" + "/".join(rng.choice(["home", "x", "y.z", "a b", "..", ".", "", "w"]) for _ in range(rng.randrange(0, 5))) + rng.choice(["", "", "/"])


VARS = ["VFA", "VFB", "VFC", "VF_D"]


def text(rng, n=5):
    return "".join(rng.choice(["${VFA}", "${VFB}", "${VFC}", "${VF_D}", "${VFNONE}", "${", "}", "$", "{", "/usr", "x", " ", "${}", "$$", "VFA"][: 15 if rng.random() < 0.4 else 5] + ["/p"])
                   for _ in range(rng.randrange(0, n)))


def gen(rng, n):
    eps = []
    for _ in range(n):
        ep = [{"op": "new"}]
        for _ in range(rng.randrange(5, 30)):
            k = rng.random()
            if k < 0.1:
                ep.append({"op": "pwd", "v": b(absdir(rng))})
            elif k < 0.4:
                ep.append({"op": "file", "s": b(path(rng))})
            elif k < 0.6:
                ep.append({"op": "norm", "s": b(path(rng))})
            elif k < 0.7:
                ep.append({"op": "env", "k": b(rng.choice(VARS)), "v": b(text(rng, 4))})
            elif k < 0.73:
                ep.append({"op": "unset", "k": b(rng.choice(VARS))})
            elif k < 0.77:
                ep.append({"op": "get", "s": b(rng.choice(VARS + ["VFNONE"]))})
            elif k < 0.98:
                ep.append({"op": "repl", "s": b(text(rng))})
            else:
                ep.append({"op": "repl", "s": b("".join(chr(rng.randrange(1, 256)) for _ in range(rng.randrange(0, 40))))})
        eps.append(ep)
    return eps


def run(ctx):
    rng = ctx.rng
    binary = ctx.compile("h_filepath", ["h_filepath.cpp"], libs=["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread"])
    m = ctx.model("FilePathMC", want_edges=True, timeout=600)
    groups = {}
    for d in m["edges"]:
        groups.setdefault(json.dumps([d["e"]["op"], d["s"], d["e"]["env"]]), []).append(d["t"])
    eps, n = [], 0
    for key in sorted(groups):
        kind, pwd, env = json.loads(key)
        texts = sorted(groups[key])
        if ctx.quick and len(texts) > 2000:
            texts = sorted(rng.sample(texts, 2000))
        head = [{"op": "new"}, {"op": "pwd", "v": pwd}] + [{"op": "env", "k": k, "v": v} for k, v in env]
        for i in range(0, len(texts), 200):
            ep = list(head)
            for t in texts[i:i + 200]:
                n += 1
                if kind == "text":
                    ep.append({"op": "repl", "s": t})
                else:
                    ep += [{"op": "file", "s": t}, {"op": "norm", "s": t}]
            eps.append(ep)
    ctx.cov["model_transitions_replayed"] += n
    ctx.conform("FilePathTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover", timeout=300, tlc_timeout=1500)
    eps = gen(rng, 1500 if ctx.quick else 20000)
    ctx.conform("FilePathTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random", timeout=300, tlc_timeout=1500)
    if not ctx.quick:
        ctx.model("FilePathMC", "FilePathMCbig.cfg", timeout=900)
