"""Scripts for the harness h_logtext."""
LIBS = ["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread"]
KINDS = ["str", "cstr", "raw", "bool", "ptr", "span", "stamp", "dbl", "u64", "u8", "i8", "u16", "i16", "u32", "i32", "i64"]
BITS = {"8": 8, "16": 16, "32": 32, "64": 64}


def compile(ctx):
    return ctx.compile("h_logtext", ["h_logtext.cpp"], libs=LIBS)


def b(s):
    return list(s.encode("latin1"))


def text(rng, n):
    """n bytes without a zero byte; percent signs and formats among them."""
    if n > 40:
        return [97 + (i + n) % 26 for i in range(n)]
    return [rng.choice([37, 115, 110, 126, 10, 34, 39, 92, 32, 65, 97, 200]) if rng.random() < 0.3 else rng.randrange(1, 256) for _ in range(n)]


def size(rng, limits=(256, 1024, 2046, 2047, 2048)):
    k = rng.random()
    if k < 0.7:
        return rng.randrange(0, 12)
    if k < 0.85:
        return rng.randrange(0, 400)
    return max(0, rng.choice(limits) + rng.randrange(-2, 3))


def integer(rng, k):
    n = BITS[k[1:]]
    lo, hi = (0, 2 ** n - 1) if k[0] == "u" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
    c = rng.random()
    if c < 0.3:
        return rng.choice([lo, lo + 1, hi, hi - 1, 0])
    v = rng.getrandbits(rng.randrange(1, n + 1))
    return max(lo, min(hi, v if rng.random() < 0.5 or k[0] == "u" else -v))


def value(rng):
    k = rng.choice(KINDS if rng.random() < 0.5 else ["str", "cstr", "raw"])
    o = {"k": k}
    if k in ("str", "cstr", "raw"):
        o["v"] = text(rng, size(rng, (1023, 1024, 2046, 2047, 3000)))
    elif k == "bool":
        o["v"] = rng.randrange(2)
    elif k == "ptr":
        o["v"] = rng.choice([0, 1, 255, 4096, rng.getrandbits(30)])
    elif k == "span":
        s = rng.choice([0, 1, 59, 3600, 86400, rng.getrandbits(30), rng.getrandbits(36)])
        o["s"], o["n"] = (s, rng.choice([0, 1, 999999999, rng.randrange(10 ** 9)]))
        if rng.random() < 0.3:
            o["s"], o["n"] = -o["s"], -o["n"]
    elif k == "stamp":
        o["s"], o["n"] = rng.choice([0, 951782400, 1709164799, rng.getrandbits(31), rng.getrandbits(36)]), rng.choice([0, 1, 999999999, rng.randrange(10 ** 9)])
    elif k == "dbl":
        o["m"], o["x"], o["neg"] = rng.getrandbits(rng.choice([1, 4, 20, 53])), rng.choice([0, -1, -3, -10, -30, -52, -70, 5, 60, rng.randrange(-90, 200)]), rng.randrange(2)
    else:
        o["v"] = integer(rng, k)
    return o


def fmt(rng):
    s = []
    for _ in range(rng.randrange(0, 7)):
        k = rng.random()
        if k < 0.35:
            s += b(rng.choice(["<", " ", "::", "%s", ": ", "x", "123", "(", "C", "]", "%n"]))
        else:
            s += b("~") + (b(str(rng.choice([0, 1, 2, 3, 4, 5, 9, 12]))) if rng.random() < 0.4 else []) + \
                b(rng.choice(["", "", "", "(", "[", "{", "::", " ", "a(", "<"])) + b(rng.choice("CODEFGLSTM"))
    if rng.random() < 0.1:
        s += b(rng.choice(["~", "~3", "~(", "~~"]))
    return s


def clock(rng):
    return {"op": "clock", "s": rng.choice([0, 59, 951782399, 951782400, 1709164799, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, rng.getrandbits(31), rng.getrandbits(33)]),
            "n": rng.choice([0, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 999999999, rng.randrange(10 ** 9)])}


def tf(rng):
    return {"op": "tf", "f": b("".join(rng.choice(["%Y", "%m", "%d", "%H", "%M", "%S", "%%", "-", " ", ":", "t"]) for _ in range(rng.randrange(0, 9))))}


def push(rng, long=True):
    def item(p, limits):
        return [] if rng.random() < 0.35 else text(rng, size(rng, limits) if long and rng.random() < 0.4 else rng.randrange(1, 8))
    return {"op": "push", "l": rng.randrange(0, 6), "s": item(0.1, (255, 256, 257)), "f": item(0.3, (1023, 1024, 1025)), "n": rng.choice([0, 1, 42, 65535, 2 ** 31 - 1]),
            "c": item(0.4, (255, 256, 257)), "o": item(0.4, (1023, 1024, 1025)), "d": item(0.4, (255, 256, 257)), "t": item(0.1, (2047, 2048, 2049, 3000))}


def metadata(rng, n):
    """Formats and messages, handed to the output directly or by way of a stream."""
    eps = []
    for _ in range(n):
        ep = [{"op": "new", "s": text(rng, rng.choice([0, 1, 6, 20, 255, 256, 257]))}]
        for _ in range(rng.randrange(10, 40)):
            k = rng.random()
            if k < 0.25:
                ep.append({"op": "fmt", "f": fmt(rng)})
            elif k < 0.32:
                ep.append(tf(rng))
            elif k < 0.45:
                ep.append(clock(rng))
            elif k < 0.8:
                ep.append(push(rng))
            else:
                th, l = rng.randrange(3), rng.randrange(0, 5)
                for w in rng.sample("codfn", rng.randrange(0, 6)):
                    ep.append({"op": "note", "th": th, "l": l, "k": w, "v": rng.choice([1, 77, 1024]) if w == "n" else text(rng, rng.choice([1, 5, 30, 255, 256, 300, 1023, 1024, 1030, 2000]))})
                for _ in range(rng.randrange(0, 3)):
                    ep.append(dict({"op": "put", "th": th, "l": l}, **value(rng)))
                if rng.random() < 0.8:
                    ep.append({"op": rng.choice(["flush", "endl"]), "th": th, "l": l})
        eps.append(ep)
    return eps


def messages(rng, n):
    """Many messages under way at once, of every kind of value."""
    eps = []
    for _ in range(n):
        ep = [{"op": "new"}, {"op": "fmt", "f": b(rng.choice(["~E", "~L ~E", "~C~O~D~E|", "~E~E"]))}]
        wide = rng.random() < 0.3
        if wide:                                   # more messages under way than the stream keeps buffers for
            for th in range(8):
                for l in range(rng.choice([4, 5])):
                    ep.append(dict({"op": "put", "th": th, "l": l}, **value(rng)))
        for _ in range(rng.randrange(10, 60)):
            th, l = rng.randrange(8 if wide else 3), rng.randrange(0, 5)
            k = rng.random()
            if k < 0.7:
                ep.append(dict({"op": "put", "th": th, "l": l}, **value(rng)))
            elif k < 0.75:
                ep.append({"op": "note", "th": th, "l": l, "k": rng.choice("co"), "v": text(rng, rng.randrange(1, 9))})
            elif k < 0.93:
                ep.append({"op": rng.choice(["flush", "endl"]), "th": th, "l": l})
            else:
                ep.append({"op": "printf", "th": th, "l": l, "k": rng.choice("sd"), "v": text(rng, size(rng, (2040, 2046, 2047, 5000))), "n": rng.choice([0, -1, 2 ** 31 - 1, 7])})
        eps.append(ep)
    return eps


def every_format(edges):
    eps, ep = [], []
    for d in edges:
        e = d["e"]
        if e["op"] != "format":
            continue
        if len(ep) == 0 or len(ep) > 120:
            ep = [{"op": "new"}, {"op": "clock", "s": 0, "n": 5000000}]
            eps.append(ep)
        ep.append({"op": "fmt", "f": e["f"]})
        for full in (1, 0):
            ep.append({"op": "push", "l": 2 * full, "s": b("s") * full, "f": b("f") * full, "n": 7 * full, "c": b("c") * full, "o": b("o") * full, "d": b("d") * full, "t": b("t") * full})
    return eps


def every_message(edges, rng):
    eps = []
    for d in edges:
        e = d["e"]
        if e["op"] != "message":
            continue
        ep = [{"op": "new"}, {"op": "fmt", "f": b("~E")}]
        for i, n in enumerate(e["p"]):
            ep.append({"op": "put", "th": 1, "l": 2, "k": rng.choice(["str", "cstr", "raw"]), "v": [97 + i] * n})
        ep.append({"op": "printf", "th": 1, "l": 2, "k": "s", "v": [122] * 3} if e["x"] == "printf" else {"op": e["x"], "th": 1, "l": 2})
        ep += [{"op": "put", "th": 1, "l": 2, "k": "str", "v": [65]}, {"op": "endl", "th": 1, "l": 2}]
        eps.append(ep)
    return eps
