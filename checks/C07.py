"""Resource texts."""
import itertools


def run(ctx):
    binary = ctx.compile("h_scheme", ["h_scheme.cpp"], libs=["icl_core"])
    m = ctx.model("SchemeMC", want_edges=True, timeout=200)
    texts = [d["e"]["text"] for d in m["edges"]]
    if len(texts) < 300:
        raise RuntimeError("SchemeMC printed %d texts" % len(texts))
    ctx.cov["model_transitions_replayed"] += len(texts)
    rng = ctx.rng
    enc = lambda s: [ord(c) for c in s]
    tok = ["a", "://", "#", "?", "=", "&", "-", "+", " ", "1"]
    for n in range(0, 5 if ctx.quick else 6):
        for t in itertools.product(tok, repeat=n):
            if n < 4 or rng.random() < (0.4 if n == 4 else 0.3):
                texts.append(enc("".join(t)))
    word = lambda cs="abcXYZ019", k=5: "".join(rng.choice(cs) for _ in range(rng.randrange(1, k)))
    for _ in range(1500 if ctx.quick else 20000):      # sentences of the grammar, then mutations
        s = ""
        if rng.random() < 0.7:
            s += rng.choice(["file", "FILE", "http", "hTtp", "camera", "gps", "Gps", "raw", "a+b", "x+Y+z", "files", "c1"]) + "://"
        s += word("ab/. :&=+_-%~", 9)
        if rng.random() < 0.5:
            s += "#" + word() + rng.choice(["", "", "-" + word()])
        if rng.random() < 0.6:
            s += "?" + "&".join(rng.choice([word(), word() + "_" + word(), word() + "_"]) + "=" + word("ab1#/:=._-", 6) for _ in range(rng.randrange(1, 4)))
        if rng.random() < 0.5:
            for _ in range(rng.randrange(1, 3)):
                i = rng.randrange(len(s) + 1)
                s = rng.choice([s[:i] + rng.choice("#?&=:/-+_ \t\x80a1") + s[i:], s[:i] + s[i + 1:], s[:i]])
        texts.append([c & 255 for c in enc(s)])
    rng.shuffle(texts)
    eps, k = [], 0
    while k < len(texts):
        n = rng.choice([1, 5, 60])
        eps.append([{"op": "new"}] + [{"op": "parse", "text": t} for t in texts[k:k + n]])
        k += n
    ctx.conform("SchemeTrace", binary, ctx.write_script("texts", eps), cfg="Trace.cfg", label="texts")
