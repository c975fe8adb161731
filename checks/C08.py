"""Text helpers."""


def run(ctx):
    binary = ctx.compile("h_text", ["h_text.cpp"], libs=["icl_core"])
    m = ctx.model("TextMC", want_edges=True, timeout=200)
    rng = ctx.rng
    ops = []
    seen = set()
    for d in m["edges"]:
        s, dl = d["e"]["s"], d["e"]["d"]
        ops.append({"op": "split", "s": s, "d": dl})
        if tuple(s) not in seen:
            seen.add(tuple(s))
            ops.append({"op": "trim", "s": s})
            ops.append({"op": "pad", "s": s, "w": rng.randrange(8), "c": rng.choice([32, 48, 120])})
    ctx.cov["model_transitions_replayed"] += len(m["edges"])
    enc = lambda s: [ord(c) & 255 for c in s]
    word = lambda cs, n: "".join(rng.choice(cs) for _ in range(rng.randrange(n)))
    ops += [{"op": "trim", "s": []}, {"op": "split", "s": [], "d": [97]}, {"op": "case", "s": []}, {"op": "bool", "v": 1}, {"op": "bool", "v": 0}]
    for _ in range(500 if ctx.quick else 8000):
        cs = rng.choice(["ab", "a; ", " \t\n\r\v\fa", "aBzZ@[`{19", "".join(chr(c) for c in range(1, 256))])
        s = enc(word(cs, rng.choice([4, 12, 60])))
        ops.append({"op": "trim", "s": s})
        ops.append({"op": "case", "s": s})
        ops.append({"op": "pad", "s": s, "w": rng.choice([0, len(s), len(s) + 1, max(0, len(s) - 1), rng.randrange(70)]), "c": rng.choice([32, 48, 0, 255, 97])})
        dl = rng.choice([enc(word("ab; ", 4)) or [59], s[:1] or [97], s[1:3] or [59], s[-1:] or [97], s or [97]])
        ops.append({"op": "split", "s": s, "d": dl})
        ops.append({"op": "join", "p": ";".join(",".join(str(ord(c)) for c in word(cs.replace("\x00", ""), 5)) for _ in range(rng.randrange(5))) or "", "d": enc(word("ab;", 3))})
        v = rng.choice([0, 1, -1, 9, 10, -10, 99, 100, 32767, -32768, 65535, 2**31 - 1, -2**31, 2**32 - 1, 2**63 - 1, -2**63, rng.randrange(-10**rng.randrange(1, 19), 10**rng.randrange(1, 19) + 1)])
        ops.append({"op": "int", "t": rng.randrange(6), "v": v, "w": rng.randrange(25), "c": rng.choice([32, 48])})
        ops.append({"op": "float", "m": rng.choice([0, 1, -1, 5, 100, 125, 999999, 123456789, rng.randrange(-10**6, 10**6), rng.randrange(-10**9, 10**9)]),
                    "x": rng.choice([0, 0, -1, -2, -3, 1, 3, -6, -9, 6, 10, -12, 14, 24, -24, rng.randrange(-30, 30)])})
    # each byte value once for the case and blank classes
    ops += [{"op": "case", "s": list(range(1, 128))}] + [{"op": "trim", "s": [c, 97, c]} for c in range(1, 256)]
    rng.shuffle(ops)
    eps = [[{"op": "new"}] + ops[i:i + 80] for i in range(0, len(ops), 80)]
    ctx.conform("TextTrace", binary, ctx.write_script("texts", eps), cfg="Trace.cfg", label="texts")
