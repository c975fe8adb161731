"""Command lines."""


def b(s):
    return [ord(c) for c in s]


def O(name, short, val, pre):
    return {"op": "opt", "name": b(name), "short": b(short), "val": val, "pre": pre}


def P(name, optional):
    return {"op": "pos", "name": b(name), "optional": optional}


# the declarations of GetoptMC
DS = [([O("foo", "f", 1, 0), O("bar", "b", 0, 0), O("o/", "p", 1, 1)], dict(strict=1, extra=1, delim=b("--"))),
      ([O("foo", "", 1, 0), O("x", "f", 0, 1), P("r", 0), P("q", 1)], dict(strict=0, extra=0, delim=b("--"))),
      ([O("foo", "f", 0, 0), O("o/", "o", 0, 1), O("p", "", 1, 1), P("foo", 1), P("q", 1)], dict(strict=0, extra=1, delim=b("+")))]


def episode(decl, how, args, rng):
    how = dict(how, op="how", cleanup=rng.randrange(2), lists=rng.randrange(2))
    how["flag"] = rng.randrange(2) if how["strict"] else 0
    return [{"op": "new"}] + decl + [how, {"op": "ask", "name": b("zz"), "pre": rng.randrange(2)}] + [{"op": "arg", "v": a} for a in args]


NAMES = ["foo", "f", "fo", "foobar", "bar", "b-a", "x", "o/", "IclCore/Log", "a.b", "n_1", "quick-debug", "z", "h", "v"]


def word(rng):
    return "".join(rng.choice("abfx01=/.- :+\t\"'*") for _ in range(rng.choice([0, 1, 1, 2, 3, 8])))


def random_episode(rng):
    names, shorts = [], ["h"]
    decl = []
    prefixes = []
    sprefixes = []
    for _ in range(rng.randrange(0, 6)):
        n, s = rng.choice(NAMES), rng.choice(["", "f", "b", "o", "x1", "vv", "q-"])
        pre = rng.random() < 0.4
        if n in names or n == "help" or s in shorts and s:
            continue
        if pre and (any(n.startswith(q) or q.startswith(n) for q in prefixes) or s and any(s.startswith(q) or q.startswith(s) for q in sprefixes)) or "." in n and pre:
            continue
        names.append(n)
        if s:
            shorts.append(s)
        if pre:
            prefixes.append(n)
            sprefixes += [s] if s else []
        decl.append(O(n, s, rng.randrange(2), int(pre)))
    for _ in range(rng.randrange(0, 4)):
        n = rng.choice(["in", "out", "file", "foo", "extra"])
        if all(d["name"] != b(n) for d in decl):
            decl.append(P(n, rng.randrange(2)))
    # a prefix option and an option of the same text do not go together
    how = dict(strict=int(rng.random() < 0.4), extra=rng.randrange(2), delim=b(rng.choice(["--", "--", "+", "end", "---"])))
    args = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 15])):
        k = rng.random()
        d = rng.choice(decl) if decl else None
        if d and d["op"] == "opt" and k < 0.65:
            n, s = "".join(map(chr, d["name"])), "".join(map(chr, d["short"]))
            if d["pre"]:
                n, s = n + word(rng).replace("=", ""), s and s + word(rng)
            if s and rng.random() < 0.5:
                args.append("-" + s)
                if d["val"] and rng.random() < 0.9:
                    args.append(rng.choice([word(rng), "--foo", "-f", "a", how["delim"] and "--"]))
            else:
                args.append("--" + n + rng.choice(["", "=", "=a", "=" + word(rng)] if not d["val"] else ["=", "=a", "=x=y", "=" + word(rng), "=" + word(rng)] + [""] * (rng.random() < 0.2)))
        elif k < 0.72:
            args.append("".join(map(chr, how["delim"])))
        elif k < 0.77:
            args.append(rng.choice(["--zz", "-zz", "--zz=1", "---", "----", "-", "--f", "--foob", "--h", "-help"]))
        elif k < 0.78:
            args.append(rng.choice(["-h", "--help"]))
        else:
            args.append(rng.choice(["a", "b", "foo", word(rng), word(rng)]))
    args = [a for a in args if not a.startswith("--=")]
    return episode(decl, how, [b(a) for a in args], rng)


def run(ctx):
    binary = ctx.compile("h_getopt", ["h_getopt.cpp"], libs=["icl_core", "icl_core_config"])
    m = ctx.model("GetoptMC", cfg="GetoptMC.cfg" if ctx.quick else "GetoptMCbig.cfg", want_edges=True, expect_actions=["line"])
    lines = [d["e"] for d in m["edges"]]
    ctx.cov["model_transitions_replayed"] += len(lines)
    eps = [episode(*DS[e["d"] - 1], e["args"], ctx.rng) for e in lines]
    ctx.conform("GetoptTrace", binary, ctx.write_script("lines", eps), cfg="Trace.cfg", label="lines", timeout=600)
    eps = [random_episode(ctx.rng) for _ in range(3000 if ctx.quick else 60000)]
    ctx.conform("GetoptTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random", timeout=800)
