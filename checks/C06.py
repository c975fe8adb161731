"""Time stamps as texts."""
import calendar, datetime

ZONES = ["UTC", "EST5", "IST-5:30", "CET-1CEST,M3.5.0,M10.5.0/3"]
NS = [0, 1, 9, 10, 999, 1000, 100000000, 99999999, 999999999, 500000000]


def day(y, m, d):
    return (datetime.date(y, m, d) - datetime.date(1970, 1, 1)).days


def instants(rng, n):
    out = []
    years = [1970, 1971, 1972, 1999, 2000, 2001, 2004, 2015, 2016, 2037, 2038, 2039, 2099, 2100, 2101, 2104, 2200, 2300, 2400, 2401, 4000, 9998, 9999]
    for y in years:
        for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (12, 30), (rng.randrange(1, 13), 1)):
            if d == 29 and not calendar.isleap(y):
                continue
            for sod in (0, 86399, rng.randrange(86400)):
                out.append((day(y, m, d) * 86400 + sod, rng.choice(NS)))
    for s in (2**31 - 1, 2**31, 2**32 - 1, 2**32, 0, 1, 86400 * 365):
        out.append((s, rng.choice(NS)))
    for y in range(2014, 2030):         # around the summer time changes
        for m in (3, 10):
            d = max(k for k in range(25, 32) if datetime.date(y, m, k).weekday() == 6)
            for off in (-1, 0, 3599, 3600 - 7200):
                out.append((day(y, m, d) * 86400 + 3600 + off, rng.choice(NS)))
    for _ in range(n):
        out.append((rng.randrange(0, 253402300800 - 86400 * 2), rng.choice(NS + [rng.randrange(10**9)] * 5)))
        out.append((rng.randrange(0, 2**31), rng.choice(NS + [rng.randrange(10**9)] * 5)))
    return [(s, n) for s, n in out if s < 253402300800 - 86400]


def run(ctx):
    ctx.model("CalendarMC", timeout=200)
    binary = ctx.compile("h_calendar", ["h_calendar.cpp"], libs=["icl_core"])
    rng = ctx.rng
    ep = [{"op": "new"}]
    eps = [ep]

    def add(op):
        if len(eps[-1]) > 150:
            eps.append([{"op": "new"}])
        eps[-1].append(op)
    for s, n in instants(rng, 150 if ctx.quick else 4000):
        add({"op": "fmt", "zone": rng.choice(ZONES), "s": s, "n": n})
        add({"op": "back", "s": s, "n": n})
    for _ in range(150 if ctx.quick else 3000):    # instants before the epoch format as well
        add({"op": "fmt", "zone": rng.choice(ZONES[:3]), "s": -rng.randrange(0, 31536000), "n": -rng.choice(NS + [rng.randrange(10**9)] * 5)})
    for s, n in instants(rng, 60 if ctx.quick else 3000):
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=s)
        full = "%04d%02d%02dT%02d%02d%02d,%09d" % (d.year, d.month, d.day, d.hour, d.minute, d.second, n)
        for k in rng.sample([0, 4, 6, 8, 9, 11, 13, 15, 16] + list(range(17, 26)), 3) + [25]:
            text = full[:k]
            r = rng.random()
            if r < 0.05 and text:
                i = rng.randrange(len(text))
                text = text[:i] + rng.choice("xT,:") + text[i + 1:]
            elif r < 0.15 and len(text) == 25:
                text += "".join(rng.choice("0123456789") for _ in range(rng.randrange(1, 5)))
            elif r < 0.2 and len(text) > 9:
                text = text[:8] + " " + text[9:]
            add({"op": "parse", "text": [ord(c) for c in text]})
    S = [0, 1, 59, 60, 61, 119, 120, 3599, 3600, 3601, 3660, 3661, 7200, 7199, 86400, 90061, 10**10, 10**15 + 3723]
    N = [0, 1, 999, 1000, 1001, 999000, 10**6, 10**6 + 1, 1500000, 999000000, 999999000, 999999999, 123456789, 120000000]
    for s in S:
        for n in (N if not ctx.quick else rng.sample(N, 7)):
            add({"op": "span", "s": s, "n": n})
            add({"op": "span", "s": -s, "n": -n})
    for _ in range(200 if ctx.quick else 3000):
        sg = rng.choice([1, -1])
        add({"op": "span", "s": sg * rng.randrange(10 ** rng.randrange(1, 14)), "n": sg * rng.randrange(10 ** rng.randrange(1, 10)) * rng.choice([1, 1000, 10**6]) % 10**9 * 1})
    ctx.conform("CalendarTrace", binary, ctx.write_script("texts", eps), cfg="Trace.cfg", label="texts")
