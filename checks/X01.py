"""SHA-2 digests against FIPS 180-4, computed by the specification itself."""
import concurrent.futures
VARIANTS = ["sha224", "sha256", "sha384", "sha512"]


def block(v):
    return 64 if v in ("sha224", "sha256") else 128


def part(rng, data):
    """One feeding operation; a C string can only carry data without zero bytes."""
    how = rng.choice(["cstr", "str", "buf"])
    if how == "cstr" and 0 in data:
        how = rng.choice(["str", "buf"])
    return {"op": how, "m": list(data)}


def message(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return [rng.choice([0, 0x80, 0xff]) for _ in range(n)]
    if k == 1:
        return [rng.randrange(1, 256) for _ in range(n)]
    return [rng.randrange(256) for _ in range(n)]


def split(rng, data, style, b):
    """Cut a message: in one piece, byte by byte, along block borders, or anywhere (empty parts included)."""
    n = len(data)
    if style == 0:
        cuts = []
    elif style == 1:
        cuts = list(range(1, n))
    elif style == 2:
        cuts = [c for c in (b - 1, b, b + 1, 2 * b - 1, 2 * b) if c < n and rng.random() < 0.7]
    else:
        cuts = sorted(rng.randrange(n + 1) for _ in range(rng.randrange(1, 7)))
    r, at = [], 0
    for c in cuts + [n]:
        r.append(part(rng, data[at:c]))
        at = c
    return r


def run(ctx):
    rng = ctx.rng
    ctx.model("Sha2MC", expect_actions=["Feed", "Fin"])
    binary = ctx.compile("h_sha2", ["h_sha2.cpp"])
    # Every length up to two blocks and a byte, every variant.
    eps = []
    for rep in range(1 if ctx.quick else 4):
        for v in VARIANTS:
            for n in range(2 * block(v) + 3):
                eps.append([{"op": "new", "v": v}] + split(rng, message(rng, n), rng.choice([0, 2, 3, 3]) if n % 16 or n == 0 else 1, block(v)) + [{"op": "fin"}, {"op": "digest"}])
    ctx.conform("Sha2Trace", binary, ctx.write_script("lengths", eps), cfg="Trace.cfg", label="lengths")
    # Every fill level of the buffer met by every way of feeding, with parts which end before, at and behind the border.
    eps = []
    for v in VARIANTS:
        b = block(v)
        for f in range(b + 1):
            for how in ("cstr", "str", "buf"):
                if ctx.quick and rng.random() < 0.8 and f not in (0, 1, b - 9, b - 8, b - 1, b):
                    continue
                first = rng.choice(["cstr", "str", "buf"])
                more = rng.choice([0, max(0, b - f - 1), b - f, b - f + 1, 2 * b - f])
                m = [rng.randrange(1, 256) for _ in range(f + more)]
                eps.append([{"op": "new", "v": v}, {"op": first, "m": m[:f]}, {"op": how, "m": m[f:]}, {"op": "fin"}, {"op": "digest"}])
    ctx.conform("Sha2Trace", binary, ctx.write_script("fills", eps), cfg="Trace.cfg", label="fills")
    # Histories: use again after clear() in any state, copies, reading twice and in between.
    eps = []
    for _ in range(60 if ctx.quick else 1500):
        v = rng.choice(VARIANTS)
        b, ep, done, other, fed = block(v), [{"op": "new", "v": v}], False, False, 0
        for _ in range(14):
            k = rng.randrange(12)
            if k == 0:
                ep.append({"op": "clear"}); done = False
            elif k == 1:
                ep.append({"op": "copy"}); other = done
            elif k == 2:
                ep.append({"op": "swap"}); done, other = other, done
            elif done:
                ep.append({"op": "digest"})
            elif k == 3:
                ep.append({"op": "peek"})
            elif k == 4:
                ep += [{"op": "fin"}, {"op": "digest"}]; done = True
            else:
                ep.append(part(rng, message(rng, rng.choice([0, 1, 3, 20, b - 1, b, b + 1, rng.randrange(3 * b)]))))
        if not done:
            ep += [{"op": "fin"}, {"op": "digest"}]
        eps.append(ep)
    ctx.conform("Sha2Trace", binary, ctx.write_script("histories", eps), cfg="Trace.cfg", label="histories")
    # Messages so long that their length does not fit into 32 bits (in bits / in bytes).
    fast = ctx.compile("h_sha2_fast", ["h_sha2.cpp"], asan=False, opt="-O2")
    jobs = []
    for v, z in [("sha224", 29), ("sha256", 32), ("sha384", 29), ("sha512", 32)] + ([] if ctx.quick else [("sha224", 32), ("sha256", 29), ("sha384", 32), ("sha512", 29)]):
        eps = [[{"op": "new", "v": v}, {"op": "zeros", "z": z}] + split(rng, message(rng, rng.choice([0, 1, 55, 60, 120, 200])), 3, block(v)) + [{"op": "fin"}, {"op": "digest"}]]
        name = "long_%s_%d" % (v, z)
        jobs.append((name, ctx.write_script(name, eps)))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(ctx.conform, "Sha2Trace", fast, script, cfg="Trace.cfg", label=name, timeout=400) for name, script in jobs]:
            f.result()
    ctx.cov["message lengths"] = "0..%d / 0..%d bytes, 2^29 and 2^32 + n bytes" % (2 * 64 + 2, 2 * 128 + 2)
