"""Initialising the configuration: files, options, positional parameters, overrides."""


def b(s):
    return list(s.encode("latin1"))


def items(doc):
    r = []
    for x in doc:
        if x["k"] == "e":
            r += [{"op": "open", "n": x["v"], "at": x.get("at", 0)}] + items(x["c"]) + [{"op": "close"}]
        elif x["k"] == "c":
            r.append({"op": "cmt"})
        else:
            r.append({"op": {"t": "text", "i": "inc"}[x["k"]], "v": x["v"]})
    return r


def episode(fs, ps, qs, args, rng, strict=1, after=()):
    ep = [{"op": "new"}]
    for f in fs:
        ep.append({"op": "file", "n": f["n"], "kind": f["kind"], "decl": rng.randrange(2)})
        ep += items(f["doc"]) + [{"op": "close"}] if f["kind"] == "xml" else [{"op": "line", "s": x} for x in f["l"]]
    for p in ps:
        ep.append({"op": "opt", "name": p["o"], "short": p.get("short", []), "val": p.get("val", 1), "k": p["k"], "d": p["d"]})
    for q in qs:
        ep.append({"op": "pos", "name": q["o"], "optional": q.get("optional", 1), "k": q["k"], "d": q["d"]})
    ep.append({"op": "how", "strict": strict, "lists": rng.randrange(2), "late": rng.randrange(2), "flag": rng.randrange(2) if strict else 0})
    return ep + [{"op": "arg", "v": a} for a in args] + [{"op": "setfile", "f": f} for f in after]


NAMES = ["a", "b", "IclCore", "Logging", "x1", "x-y", "a.b", "_u"]
TEXTS = ["1", "yes", "some text", "  padded ", "two\n   lines", "a<b&c>d", "'q\"", "/usr/lib", "x=y", "\t", "", "true", "\u00c3\u00a4"]
FILES = ["main.xml", "sub/b.xml", "c.xml", "sub/d.tree", "e.AttributeTree", "noext"]


def rel(frm, to):
    """How the file frm refers to the file to."""
    a, c = frm.split("/"), to.split("/")
    if len(a) == 2:
        return c[1] if len(c) == 2 else "../" + to
    return to


def doc(rng, me, later, depth=0):
    r = []
    for _ in range(rng.randrange(0, 6 if depth else 8)):
        k = rng.random()
        if k < 0.4 and depth < 4:
            # mostly a value
            r.append({"k": "e", "v": b(rng.choice(NAMES)), "at": rng.randrange(2), "c": [{"k": "t", "v": b(rng.choice(TEXTS)), "c": []}] if rng.random() < 0.6 else doc(rng, me, later, depth + 1)})
        elif k < 0.75 and (not r or r[-1]["k"] != "t"):
            if depth or rng.random() < 0.1:
                r.append({"k": "t", "v": b(rng.choice(TEXTS)), "c": []})
        elif k < 0.9 and later:
            r.append({"k": "i", "v": b(rng.choice(["", " "]) + rng.choice([rel(me, rng.choice(later))] * 5 + ["missing.xml", ""]) + rng.choice(["", "", "\n"])), "c": []})
        elif k < 0.95:
            r.append({"k": "c", "v": [], "c": []})
    return r


def tree(rng, depth=0):
    r = []
    for _ in range(rng.randrange(1, 5)):
        k = rng.random()
        n = ".".join(rng.choice(["a", "b", "x1", "Icl Core", "IclCore"]) for _ in range(rng.choice([1, 1, 2])))
        v = rng.choice(["1", "some text", " x ", "", "a:b", "yes"])
        if k < 0.6:
            r.append(n + ":" + v)
        elif k < 0.7:
            r.append(":" + v)
        elif k < 0.8:
            r.append(rng.choice(["# c", "_COMMENT_:text", ""]))
        elif depth < 2:
            r += [n + "{"] + tree(rng, depth + 1) + ["}" + n]
    return r


def gen(rng, n):
    eps = []
    for _ in range(n):
        names = [f for f in FILES if rng.random() < 0.6]
        fs = []
        for i, f in enumerate(names):
            x = {"n": b(f), "kind": "xml", "doc": [], "l": []}
            if f.endswith("ree"):
                x["kind"], x["l"] = "lines", [b(s) for s in tree(rng)]
                if rng.random() < 0.1:
                    x["kind"], x["l"] = "bad", x["l"] + [b("garbage")]
            elif rng.random() < 0.08:
                x["kind"], x["l"] = "bad", [b(s) for s in rng.choice([["<a>"], [], ["<a><b></a></b>"], ["<a>", "<b>", "</a>"], ["<a b></a", ""]])]
            else:
                x["doc"] = doc(rng, f, names[i + 1:])
            fs.append(x)
        keys = ["/" + "/".join(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2]))) for _ in range(3)] + ["/a", "/IclCore/Logging", "/configfile"]
        vals = ["1", "v w", "", "-1", "x=y", "/a/b"]
        ps = []
        for o in ["port", "log", "p1"][:rng.randrange(4)]:
            ps.append({"o": b(o), "short": b(rng.choice(["", o[:2] + "x"])), "val": int(rng.random() < 0.8), "k": b(rng.choice(keys + [""])), "d": b(rng.choice(["", "", "def", "0"]))})
        qs = [{"o": b(o), "optional": int(rng.random() < 0.6), "k": b(rng.choice(keys + [""])), "d": b(rng.choice(["", "def"]))} for o in ["in", "out"][:rng.randrange(3)]]
        args = []
        if rng.random() < 0.85:
            c = rng.choice(names * 8 + ["missing.xml", "missing.tree"])
            c = rng.choice(["", "", "./", "sub/../" if any(x.startswith("sub/") for x in names) else ""]) + c
            args.append(["--configfile=" + c] if rng.random() < 0.5 else ["-c", c])
        for p in ps:
            if rng.random() < 0.5:
                o, s = "".join(map(chr, p["o"])), "".join(map(chr, p["short"]))
                v = rng.choice(vals)
                args.append((["-" + s] + [v] * p["val"]) if s and rng.random() < 0.5 else ["--" + o + ("=" + v if p["val"] else "")])
        for _ in range(rng.randrange(0, 4)):
            if rng.random() < 0.6:
                args.append(rng.choice([["file.txt"], ["x"], ["in put"]]))
        for _ in range(rng.randrange(0, 3)):
            k, v = rng.choice(keys), rng.choice(vals)
            args.append(["-o" + k, v] if rng.random() < 0.5 else ["--config-option" + k + "=" + v])
        if rng.random() < 0.3:
            args.append(rng.choice([["--dump-config"], ["-dc"]]))
        if rng.random() < 0.04:
            args.append(rng.choice([["--unknown"], ["-zz"], ["-c"], ["-h"]]))
        rng.shuffle(args)
        after = [b(rng.choice(names + ["missing.xml"])) for _ in range(rng.choice([0, 0, 1, 2]))]
        eps.append(episode(fs, ps, qs, [b(x) for a in args for x in a], rng, strict=int(rng.random() < 0.6), after=after))
    return eps


def run(ctx):
    rng = ctx.rng
    binary = ctx.compile("h_sources", ["h_sources.cpp"], libs=["icl_core", "icl_core_config"])
    m = ctx.model("SourcesMC", want_edges=True, expect_actions=["go"])
    srcs = [d["s"] for d in m["edges"]]
    ctx.cov["model_transitions_replayed"] += len(srcs)
    eps = [episode(x["fs"], x["ps"], x["qs"], x["line"], rng) for x in srcs]
    ctx.conform("SourcesTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover", timeout=600)
    eps = gen(rng, 2500 if ctx.quick else 40000)
    ctx.conform("SourcesTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random", timeout=800, tlc_timeout=1500)
