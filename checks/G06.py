"""Attribute tree files: saving and loading."""
import json

NAMES = ["a", "b", "name", "x1", "Icl Core", "a-b", "q=1", "1", "_C_"]
TEXTS = ["", "x", "some text", " lead", "trail ", "a:b", "{x}", "}", "#no", "1.5", "/usr/lib", "ä", "'\"", "\t"]
COMMENT, INCLUDE = "_COMMENT_", "_INCLUDE_"


def b(s):
    return list(s.encode("latin1"))


def o(x):
    return "-" if x is None else b(x)


def flat(t, depth=-1):
    """Nested tree of the model (byte lists) -> ops."""
    d = {"op": "root"} if depth < 0 else {"op": "node", "depth": depth}
    d["d"] = t["d"][0] if t["d"] else "-"
    d["a"] = t["a"][0] if t["a"] else "-"
    r = [d]
    for k in t["k"]:
        r += flat(k, depth + 1)
    return r


def tree(rng, size):
    def opt(x):
        return [] if x is None else [b(x)]
    root = {"d": opt(rng.choice([None, "r", "Root"])), "a": opt(rng.choice([None, None, "", "v"])), "k": []}
    nodes = [(root, 0)]
    for _ in range(size):
        p, dep = rng.choice(nodes[-6:] if rng.random() < 0.7 else nodes)
        used = [bytes(k["d"][0]).decode("latin1") for k in p["k"]]
        kind = rng.random()
        if kind < 0.12:
            if COMMENT in used:
                continue
            txt = rng.choice(["a comment", "two\nlines", "x\n\ny", "# : {", "one\ntwo: 2\n}three{", "\n", ""])
            p["k"].append({"d": [b(COMMENT)], "a": [b(txt)], "k": []})
        elif kind < 0.2:
            p["k"].append({"d": [b(INCLUDE)], "a": [b(rng.choice(["f.tree", "${HOME}/x", "sub/y"]))], "k": []})
        else:
            n = rng.choice(NAMES)
            if n in used or dep > 6:
                continue
            x = {"d": [b(n)], "a": [] if rng.random() < 0.4 else [b(rng.choice(TEXTS) if rng.random() < 0.97 else "long " * rng.choice([399, 400, 800]))], "k": []}
            p["k"].append(x)
            nodes.append((x, dep + 1))
    return root


def path(rng):
    return ".".join(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 1, 2, 3])))


def text(rng, others, depth=0):
    """Lines of a file, mostly well formed."""
    r = []
    for _ in range(rng.randrange(0, 7)):
        k = rng.random()
        ind = rng.choice(["", " ", "   ", "\t"])
        if k < 0.4:
            r.append(ind + path(rng) + ":" + rng.choice(TEXTS))
        elif k < 0.47:
            r.append(ind + ":" + rng.choice(TEXTS))
        elif k < 0.53:
            r.append(ind + rng.choice(["# comment", "#a:1", "", "", "   "]))
        elif k < 0.6:
            r.append(ind + rng.choice(["", path(rng) + "."]) + COMMENT + ":" + rng.choice(["hello", "", "x"]))
        elif k < 0.68:
            r += [ind + COMMENT + "{"] + [rng.choice(["line", "  indented  ", "", "a:1", "}", "#x"]) for _ in range(rng.randrange(0, 4))]
            if rng.random() < 0.93:
                r.append(rng.choice(["}" + COMMENT, "  }" + COMMENT + "  ", "x }" + COMMENT]))
        elif k < 0.78 and others:
            f = rng.choice(others)
            r.append(ind + INCLUDE + ":" + rng.choice([f, f, "${VFDIR}/" + f, "missing.tree", "sub\\y.tree", "sub/y.tree"]))
        elif k < 0.96 and depth < 4:
            n = path(rng)
            r.append(ind + rng.choice([n, n, n, ""]) + "{")
            r += [" " + x for x in text(rng, others, depth + 1)]
            r.append(ind + "}" + rng.choice([n, "", "other"]))
        elif k < 0.98:
            r.append(rng.choice(["}", "garbage", "} x"]))
        else:
            r.append(path(rng) + ":" + "y" * rng.choice([1980, 2000, 2050, 4000]))
    return r


def gen(rng, n):
    eps = []
    for _ in range(n):
        ep = [{"op": "new"}]
        k = rng.random()
        if k < 0.4:
            ep += flat(tree(rng, rng.randrange(0, 14))) + [{"op": "tree"}]
            for _ in range(rng.randrange(1, 4)):
                ep.append({"op": rng.choice(["save", "reload", "reload"]), "depth": rng.choice([3, 3, 0, 1, 2, 4, 5, 9]), "unmark": rng.randrange(2)})
        else:
            # Includes go from earlier to later files only.
            names = ["main.tree", "b.tree", "sub/y.tree", "sub/z"]
            for i, f in enumerate(names):
                ep.append({"op": "file", "n": b(f)})
                later = [x[4:] if f.startswith("sub/") else x for x in names[i + 1:]]
                ls = text(rng, later)
                if f.startswith("sub/"):
                    ls = [x for x in ls if "sub/" not in x and "sub\\" not in x or INCLUDE not in x]
                    ls = [x for x in ls if "VFDIR" not in x]
                for j, s in enumerate(ls):
                    op = {"op": "line", "s": b(s)}
                    if rng.random() < 0.1:
                        op["cr"] = 1
                    if j == len(ls) - 1 and rng.random() < 0.2:
                        op["op"] = "part"
                    ep.append(op)
                if rng.random() < 0.5 and i == 0:
                    break
            if rng.random() < 0.3:
                ep += flat(tree(rng, 3)) + [{"op": "tree"}]
            for _ in range(rng.choice([1, 1, 1, 2])):
                ep.append({"op": "load", "n": b(rng.choice(["main.tree"] * 6 + ["missing", "sub/y.tree"])), "unmark": rng.randrange(2), "proc": int(rng.random() < 0.8),
                           "comm": rng.randrange(2), "keep": rng.randrange(2), "alt": rng.randrange(2)})
            if rng.random() < 0.3:
                ep.append({"op": "save", "depth": 3, "unmark": 1})
        eps.append(ep)
    return eps


def run(ctx):
    rng = ctx.rng
    binary = ctx.compile("h_treefile", ["h_treefile.cpp"], libs=["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread"])
    m = ctx.model("TreeFileMC", want_edges=True, timeout=900)
    trees = {}
    for d in m["edges"]:
        for x in (d["s"], d["t"]):
            trees[json.dumps(x, sort_keys=True)] = x
    keys = sorted(trees)
    if ctx.quick:
        # Everything up to three nodes, a sample of the larger ones.
        small = [k for k in keys if k.count('"k"') <= 3]
        keys = small + rng.sample([k for k in keys if k.count('"k"') > 3], 1500)
    eps = []
    for i, k in enumerate(keys):
        ep = [{"op": "new"}] + flat(trees[k]) + [{"op": "tree"}]
        eps.append(ep + [{"op": "reload", "depth": x, "unmark": 1} for x in ((0, 1, 2, 3, 4) if not ctx.quick else (rng.randrange(0, 3), 3))])
    ctx.cov["model_transitions_replayed"] += len(keys)
    ctx.conform("TreeFileTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover", timeout=300, tlc_timeout=1500)
    eps = gen(rng, 1200 if ctx.quick else 20000)
    ctx.conform("TreeFileTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random", timeout=300, tlc_timeout=1500)
