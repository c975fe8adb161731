"""Scripts for the harness h_filelog."""
LIBS = ["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread"]
DAY = 86400
NAMES = ["a", "app.log", "x y"]


def compile(ctx):
    return ctx.compile("h_filelog", ["h_filelog.cpp"], libs=LIBS, link=["-lz"])


def b(s):
    return list(s.encode("latin1"))


def date(day):
    import datetime
    return (datetime.date(1970, 1, 1) + datetime.timedelta(days=day)).strftime(".%Y-%m-%d")


def how(rng, name):
    return rng.choice(["abs", "rel", "env", "home", "dot"]) if " " not in name else "abs"


def text(rng):
    return b("".join(rng.choice("abcdefgh %s\\\"'~$") for _ in range(rng.choice([0, 1, 5, 20])))) + ([10] if rng.random() < 0.8 else [])


def episode(rng):
    base = rng.choice([18320, 18321, 18261, 16858, 10956, 11015])            # near month and year ends, leap days
    now = base * DAY + rng.choice([0, 1, DAY - 1, DAY // 2, rng.randrange(DAY)])
    names = rng.sample(["a", "app.log"], rng.choice([1, 1, 2]))
    zipped = {n: rng.random() < 0.4 for n in names}
    ep = [{"op": "new", "s": now}]
    on, older = None, -1
    for _ in range(rng.randrange(8, 40)):
        k = rng.random()
        if k < 0.25:
            now = rng.choice([now, now + rng.randrange(2000), (now // DAY + 1) * DAY - 1, (now // DAY + 1) * DAY, (now // DAY + 1) * DAY + 1, now + DAY * rng.randrange(1, 5),
                              (now // DAY + rng.choice([1, 2, 7, 30, 366])) * DAY + rng.randrange(DAY)])
            ep.append({"op": "tick", "s": now})
        elif k < 0.37:
            m = max(0, rng.choice([now, now - rng.randrange(DAY), (now // DAY - rng.randrange(0, 12)) * DAY + rng.choice([-1, 0, 1]), now - 40 * DAY]))
            n = rng.choice(names)
            ep.append({"op": "put", "n": b(rng.choice([n + ".old", n + "b", n + date(now // DAY - 500) + ".gz", "b" + n, n[:-1] + "_", n + ".1", n.upper(), n + ".1", n + ".2"])), "t": text(rng), "m": min(m, now), "z": 0})
        elif k < 0.42:
            n = rng.choice(names)
            ep.append({"op": "dir", "n": b(n + rng.choice([date(now // DAY) + ".gz", date(now // DAY), ".d"]))})
        elif on is None:
            n = rng.choice(names)
            if k < 0.5 and not any(o["op"] == "put" and o["n"] == b(n) or o["op"] == "open" and o["n"] == b(n) for o in ep):
                ep.append({"op": "put", "n": b(n), "t": text(rng), "m": max(0, now - rng.choice([0, 1, DAY, now % DAY, now % DAY + 1, 3 * DAY])), "z": 1 if zipped[n] else 0})
            on, older = n, rng.choice([-1, -1, 0, 0, 1, 2, 7, 30, 100000])
            ep.append({"op": "open", "n": b(n), "rot": 1 if rng.random() < 0.8 else 0, "older": older, "zip": 1 if zipped[n] else 0, "flush": 0 if rng.random() < 0.25 else 1,
                       "full": rng.randrange(2), "how": how(rng, n)})
        elif k < 0.9:
            ep.append({"op": "log", "t": text(rng), "k": rng.choice([1, 1, 2, 3])})
        else:
            ep.append({"op": "close"})
            on = None
    if on:
        ep.append({"op": "close"})
    # a name is a file or a directory, and what is there is not replaced from outside
    seen, eps = {}, []
    for o in ep:
        if o["op"] in ("put", "dir"):
            if bytes(o["n"]) in seen:
                continue
            seen[bytes(o["n"])] = 1
        eps.append(o)
    return eps
