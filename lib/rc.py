"""Scripts for the harness h_records."""
import lt

LIBS = ["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread"]
DAY = 86400
FIRST = 18320 * DAY + 5


def compile(ctx):
    return ctx.compile("h_records", ["h_records.cpp"], libs=LIBS, link=["-lsqlite3"])


def b(s):
    return list(s.encode("latin1"))


def item(rng, limit):
    """A text without a zero byte: short ones with what is special to a reader, now and then one that is too long."""
    k = rng.random()
    if k < 0.75:
        return [rng.choice([39, 92, 44, 97, 34, 10, 36, 38, 40, 63, 37, 200]) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
    if k < 0.93:
        return b(rng.choice(["a", "main.cpp", "Class", "x y", "it's", "C:\\tmp\\a'b", "', '", "NULL", "12", "\\'", "$1", "\\1", "$&", "?1", ":line"]))
    return [97 + i % 26 if rng.random() < 0.97 else 39 for i in range(max(0, limit + rng.randrange(-2, 3)))]


def push(rng, sql):
    n = rng.choice([0, 1, 42, 99999, 2 ** 31 - 1, rng.randrange(2 ** 31)])
    o = {"op": "push", "l": rng.randrange(0, 6), "s": item(rng, 256), "c": item(rng, 256), "o": item(rng, 1024), "d": item(rng, 256), "f": item(rng, 1024), "n": n, "t": item(rng, 2048)}
    if rng.random() < 0.8:
        o["l"] = rng.randrange(2, 6)
    if sql:                                       # texts in a database are UTF-8; bytes above 127 would be kept, but not defined
        for k in "scodft":
            o[k] = [c for c in o[k] if c < 128]
    return o


def episode(rng, kind):
    base = rng.choice([18320, 18321, 18261, 16858, 10956, 11015])
    s = base * DAY + rng.choice([0, 1, DAY - 1, rng.randrange(DAY)])
    ep, made, queued = [{"op": "new", "s": s}], False, 0
    for _ in range(rng.randrange(6, 25)):
        k = rng.random()
        if not made or k < 0.08 and not queued:
            ep.append({"op": "make", "k": kind, "sys": item(rng, 40), "lev": rng.choice([0, 1, 2, 2, 3, 5]), "rot": 1 if kind == "sql" and rng.random() < 0.7 else 0})
            made = True
        elif k < 0.3 and not queued:
            s = rng.choice([s, s + rng.randrange(2000), (s // DAY + 1) * DAY - 1, (s // DAY + 1) * DAY, s + DAY * rng.randrange(1, 400)])
            ep.append({"op": "tick", "s": s, "n": 1000 * rng.choice([0, 1, 999999, rng.randrange(10 ** 6)])})
            if ep[-2]["op"] == "tick" and ep[-2]["s"] == s:
                ep[-1]["n"] = max(ep[-1]["n"], ep[-2]["n"])
        elif k < 0.34 and not queued and kind == "sql":
            d = s // DAY + rng.randrange(1, 3)
            import fl
            ep.append({"op": "dir", "n": b("l.db" + fl.date(d))})
        elif k < 0.75 and queued < 8:
            ep.append(push(rng, kind == "sql"))
            queued += 1
        else:
            ep.append({"op": "sync"})
            queued = 0
    return ep + ([{"op": "sync"}] if made else [])
