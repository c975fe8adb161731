"""Typed configuration reads, batches and lists."""


def b(s):
    return list(s.encode("latin1"))


INTS = ["i16", "i32", "u32", "i64", "u64"]
LIM = {"i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
COLOURS = ["Red", "Green", "blue", "Dark Red"]
BOOLS = ["0", "1", "yes", "no", "true", "false", "Yes", "NO", "TRUE", "fAlse"]
TYPES = INTS + ["dbl", "bool", "str", "enum"]


def bad(rng):
    return rng.choice(["", "  ", "abc", "x1", "-", "+", "please yes", "#", "$", "red", "END", "Beyond", "tru", "yess", "\t"])


def number(rng, t):
    lo, hi = LIM[t]
    k = rng.random()
    v = rng.choice([0, 1, 7, 8, 9, 10, 15, 16, 255, 256, 1000, hi, hi - 1, lo, lo + 1, hi + 1, lo - 1, hi * 10, 10**25]) if k < 0.6 else rng.randrange(lo, hi + 1)
    if lo == 0 and v < 0:
        v = 0
    if 0 <= v < 2**31 and rng.random() < 0.4:
        s = rng.choice(["0x%x", "0x%X", "0X%x", "0%o", "0%o"]) % v
    else:
        s = str(v)
        if v >= 0 and rng.random() < 0.1:
            s = "+" + s
    return s


def double(rng):
    s = rng.choice(["0", "1", "12", "100", "999", "007", "65536", "3"])
    if rng.random() < 0.6:
        s += "." + rng.choice(["5", "25", "75", "125", "0", "00", "50", "0625", "375"])
    if rng.random() < 0.3:
        s += rng.choice(["e", "E"]) + rng.choice(["0", "1", "+2", "3"])
    return rng.choice(["", "", "-", "+"]) + s


def text(rng, t):
    """A text that denotes a value of the type, mostly."""
    if rng.random() < 0.12:
        return bad(rng)
    if t in INTS:
        s = number(rng, t)
    elif t == "dbl":
        s = double(rng)
    elif t == "bool":
        return rng.choice(BOOLS)
    elif t == "enum":
        return rng.choice(COLOURS)
    else:
        return rng.choice(["", "a", "hello world", " x ", "0x10", "12 13", "/a/b", "yes", "tab\tnew\nline", "\xe4\xff"])
    return rng.choice(["", "", "", " ", "\t ", "\n"]) + s


def init(rng, t):
    """A value in its canonical text."""
    if t in INTS:
        return str(rng.choice([0, 5, LIM[t][0], LIM[t][1]]))
    return {"dbl": lambda: rng.choice(["0", "2.5", "-77"]), "bool": lambda: rng.choice(["true", "false"]), "str": lambda: rng.choice(["", "init", "in it"]), "enum": lambda: rng.choice("0123")}[t]()


def episode(rng):
    ep = [{"op": "new"}]
    params = {}
    nons = []
    if rng.random() < 0.35:
        for _ in range(rng.randrange(0, 6)):
            n = rng.choice(["p1", "p2", "p3", "fl", ""])
            t = rng.choice(TYPES)
            s = text(rng, t)
            if n == "" and s.startswith("-") and len(s) > 1:
                continue
            if n == "":
                nons.append(t)
            else:
                params[n] = t if n != "fl" else "bool"
            ep.append({"op": "m", "k": b(n), "v": b(s), "alt": rng.randrange(2)})
        ep.append({"op": "cmd"})
    ts = {}
    for _ in range(rng.randrange(2, 9)):
        k = "/" + rng.choice(["a", "b", "sub/x", "sub/y", "sub/z", "n", "c/d/e"])
        ts[k] = t = rng.choice(TYPES)
        if rng.random() < 0.15 and t not in ("enum",):
            ep.append({"op": "setval", "k": b(k), "t": t, "v": b(init(rng, t)), "alt": rng.randrange(2)})
        else:
            ep.append({"op": "set", "k": b(k), "v": b(text(rng, t)), "alt": 0})
    # lists of structures
    mt = {}
    for s in rng.sample(["", "val", "flag", "s/name", "kind"], rng.randrange(1, 5)):
        free = [t for t in ("i32", "bool", "str", "enum") if t not in mt.values()]
        mt[s] = rng.choice(free)
    for el in rng.sample(["x", "y1", "2", "Elem", "El"], rng.randrange(0, 5)):
        for s in mt:
            if rng.random() < 0.7:
                t = mt[s]
                v = text(rng, t) if rng.random() < 0.25 else {"i32": "12", "bool": "yes", "str": "some text", "enum": "blue"}[t]
                ep.append({"op": "set", "k": b("/list/" + el + ("/" + s if s else "")), "v": b(v), "alt": 0})
        if rng.random() < 0.2:
            ep.append({"op": "set", "k": b("/list/" + el + "/other"), "v": b("?"), "alt": 0})
    for k in ("/list", "/listed/x", "/list2/q/val"):
        if rng.random() < 0.15:
            ep.append({"op": "set", "k": b(k), "v": b("7"), "alt": 0})
    for _ in range(rng.randrange(4, 14)):
        r, alt = rng.random(), rng.randrange(2)
        if r < 0.5:
            k = rng.choice(list(ts) + ["/none"])
            t = ts.get(k, rng.choice(TYPES))
            how = rng.choice(["get", "get", "getdef"] if t != "enum" else ["get"])
            n = 0
            if params and rng.random() < 0.4:
                k = rng.choice(list(params) + ["p3"])
                t = params.get(k, "i32")
                how = rng.choice(["param", "paramdef"]) if t != "enum" else "param"
            elif nons and rng.random() < 0.4:
                n = rng.randrange(len(nons) + 1)
                how, t = "non", nons[n] if n < len(nons) else "i32"
            ep.append({"op": "read", "k": b(k), "how": how, "n": n, "t": t, "init": b(init(rng, t)), "alt": alt})
        elif r < 0.8:
            pre = rng.choice(["", "", "/sub", "/sub/", "/", "/c/d"])
            base = pre if pre == "" or pre.endswith("/") else pre + "/"
            cand = [k for k in ts if k.startswith(base)]
            for _ in range(rng.choice([0, 1, 2, 3, 5])):
                k = rng.choice(cand) if cand and rng.random() < 0.85 else base + "none"
                t = ts.get(k, rng.choice(TYPES))
                ep.append({"op": "m", "k": b(k[len(base):]), "t": t, "def": int(rng.random() < 0.4), "dv": b(init(rng, t)), "init": b(init(rng, t)), "alt": rng.randrange(2)})
            ep.append({"op": "batch", "prefix": b(pre), "alt": alt, "clean": rng.randrange(2), "report": int(rng.random() < 0.2)})
        else:
            for s in mt:
                if rng.random() < 0.8:
                    ep.append({"op": "m", "k": b(s), "t": mt[s]})
            ep.append({"op": "list", "prefix": b(rng.choice(["/list", "/list", "/list", "/lis", "/listed", "/nolist"])), "alt": alt})
    return ep


def run(ctx):
    binary = ctx.compile("h_config", ["h_config.cpp"], libs=["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread"])
    ctx.model("ConfigMC", expect_actions=[])
    # every type against texts of every type's own kind
    eps = []
    for t in TYPES:
        pool = {"dbl": ["1.5", "-0", "0.50", "12e2", "-3.5E-1", "2e-1", "5e-2", " 7"], "bool": BOOLS, "enum": COLOURS, "str": ["a b", "", " x "]}.get(t) or \
            ["0", "-0", "00", "017", "0x1f", "0XFF", "+5", " 5", "-1", "32767", "32768", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
             "18446744073709551615", "18446744073709551616"] + (["-32768", "-32769", "-2147483648", "-2147483649", "-9223372036854775808", "-9223372036854775809"] if t[0] == "i" else [])
        if t[0] == "u":
            pool = [p for p in pool if p[0] != "-"]
        for s in pool + ["abc", "", " ", "yes!", "-", "red", "END", "Beyond"]:
            ep = [{"op": "new"}, {"op": "set", "k": b("/k"), "v": b(s), "alt": 0}]
            for how in ("get", "getdef") if t != "enum" else ("get",):
                for alt in (0, 1):
                    ep.append({"op": "read", "k": b("/k"), "how": how, "n": 0, "t": t, "init": b(init(ctx.rng, t)), "alt": alt})
            for d in (0, 1):
                for alt in (0, 1):
                    ep.append({"op": "m", "k": b("/k"), "t": t, "def": d, "dv": b(init(ctx.rng, t)), "init": b(init(ctx.rng, t)), "alt": alt})
                    ep.append({"op": "batch", "prefix": [], "alt": alt, "clean": alt, "report": 0})
            if t in ("i32", "bool", "str", "enum"):
                ep.append({"op": "set", "k": b("/l/e"), "v": b(s), "alt": 0})
                ep.append({"op": "m", "k": [], "t": t})
                ep.append({"op": "list", "prefix": b("/l"), "alt": ctx.rng.randrange(2)})
            eps.append(ep)
    ctx.conform("ConfigTrace", binary, ctx.write_script("pool", eps), cfg="Trace.cfg", label="pool", timeout=300)
    eps = [episode(ctx.rng) for _ in range(1200 if ctx.quick else 20000)]
    ctx.conform("ConfigTrace", binary, ctx.write_script("random", eps), cfg="Trace.cfg", label="random", timeout=600, tlc_timeout=800)
