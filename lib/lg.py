"""Scripts for the harness h_logging."""
LEVELS = ["Trace", "Debug", "Info", "Warning", "Error", "Mute"]
LIBS = ["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread"]


def compile(ctx):
    return ctx.compile("h_logging", ["h_logging.cpp", "h_logging_release.cpp"], libs=LIBS)


def say(rng, s, l, live=True):
    f = rng.choice("LMqKDS" + ("k" if s == "A" else "")) if s in "AB" else "S"
    if not live and f == "S":
        f = "L"
    return {"op": "log", "s": s, "l": l, "f": f, "p": rng.randrange(2), "w": rng.choice(["-", "C", "CO"]), "t": rng.choice(["a", "some%20text", "%25d", "x"])}


def configured(c, s):
    ops = []
    for e, x in sorted(c.items()):
        if x["ty"]:
            ops.append({"op": "conf", "e": e, "i": "type", "v": x["ty"]})
        if x["name"]:
            ops.append({"op": "conf", "e": e, "i": "name", "v": x["name"]})
        if x["lev"]:
            ops.append({"op": "conf", "e": e, "i": "level", "v": LEVELS[x["lev"]]})
        for t in x["ls"]:
            ops.append({"op": "conf", "e": e, "i": "stream", "v": t})
    for e, x in sorted(s.items()):
        ops.append({"op": "sconf", "e": e, "i": "name", "v": x["name"]})
        if x["lev"]:
            ops.append({"op": "sconf", "e": e, "i": "level", "v": LEVELS[x["lev"]]})
    return ops


def initialised(rng, level=None):
    if level is None:
        return {"op": "init", "how": rng.choice(["plain", "manager", "argv", "life"]), "arg": "-", "long": 0}
    return {"op": "init", "how": rng.choice(["argv", "life"]), "arg": level, "long": rng.randrange(2)}


def expand(rng, ep):
    """Operations of the harness for the events of LoggingMC."""
    out = []
    for e in ep:
        if e["op"] == "setup":
            d = lambda x: x if isinstance(x, dict) else {}
            out += configured(d(e["c"]), d(e["s"])) + [initialised(rng, None if e["a"] == -1 else LEVELS[e["a"]])]
        elif e["op"] == "log":
            out.append(say(rng, e["s"], e["l"]))
        elif e["op"] == "setall":
            out.append(dict(e, mgr=rng.randrange(2)))
        else:
            out.append({k: v for k, v in e.items() if k not in ("d",)})
    return out


class Session:
    """A random history; knows which streams and outputs live."""
    def __init__(self, rng, setup):
        self.rng, self.ops = rng, [{"op": "new"}]
        self.live, self.init, self.dflt = set(), False, False
        self.outs, self.conf, self.mine, self.own, self.declared, self.first = {}, {}, [], set(), False, True
        self.setup = setup
        self.left = {}

    def add(self, **o):
        self.ops.append(o)

    def configure(self):
        r = self.rng
        c, s = {}, {}
        for e in "123":
            if r.random() < 0.6:
                c[e] = {"ty": r.choice(["Rec", "RecW", "Rec", "RecW", "Nope", "Stdout"] if r.random() < 0.9 else [""]), "name": r.choice(["", "", "n", "m"]), "lev": r.randrange(6),
                        "ls": r.choice([[], [], ["A"], ["B"], ["A", "B"], ["A", "A"], ["Z"], ["Default", "A"], ["C"]])}
                if not c[e]["ty"] and not c[e]["name"]:
                    c[e]["name"] = "n"
        for e in "12":
            if r.random() < 0.4:
                s[e] = {"name": r.choice(["A", "B", "Default", "Z", "C"]), "lev": r.randrange(6)}
        # outputs of the library itself write in a way of their own
        for e in c:
            if c[e]["ty"] == "Stdout":
                c[e]["ty"] = "Rec"
        self.ops += configured(c, s)
        # what was configured before stays
        for e, x in c.items():
            o = self.c.get(e, {"ty": "", "name": ""})
            self.c[e] = {"ty": x["ty"] or o["ty"], "name": x["name"] or o["name"]}

    def created(self):
        """The outputs which exist after working through the configuration."""
        for e in sorted(self.c):
            x = self.c[e]
            n = x["name"] or x["ty"]
            if x["ty"] in ("Rec", "RecW") and n not in self.outs:
                self.outs[n] = e

    def alive(self):
        self.live |= {"A", "B", "Default"} | ({"C"} if self.declared else set())

    def initialise(self):
        r = self.rng
        lev = r.choice(LEVELS + ["Loud"]) if self.first and not self.everinit and r.random() < 0.3 else None
        self.ops.append(initialised(r, lev))
        self.up()

    everinit = False

    def up(self):
        self.init = self.everinit = True
        self.alive()
        self.created()

    def down(self):
        self.add(op="shutdown")
        self.init = False
        self.live, self.outs = set(), {}

    def log(self):
        r = self.rng
        s = r.choice([x for x in ["A", "A", "B", "Default", "P", "C"] if x in "AB" or x in self.live])
        o = say(r, s, r.randrange(5), s in self.live)
        self.ops.append(o)
        # the first statement for a stream that does not live initialises
        if s not in self.live and o["f"] not in "qk" and not (o["f"] == "D" and o["l"] < 2):
            self.up()

    def step(self):
        r = self.rng
        k = r.random()
        names = list(self.outs) + self.mine
        recs = [o for o in names]
        if k < (0.3 if self.setup else 0.4):
            self.log()
        elif k < 0.42 and self.live:
            self.add(op="active", s=r.choice(sorted(self.live)), b=r.randrange(2))
        elif k < 0.47:
            self.add(op="setall", l=r.randrange(6), mgr=r.randrange(2))
        elif k < 0.55 and recs:
            self.add(op="setout", o=r.choice(recs), l=r.randrange(6))
        elif k < 0.65 and recs and self.live:
            self.add(op=r.choice(["link", "unlink"]), s=r.choice(sorted(self.live)), o=r.choice(recs))
        elif k < 0.68:
            self.add(op="drop", o=r.choice(list(self.outs) + ["n"]))
            self.outs.pop(self.ops[-1]["o"], None)
        elif k < 0.71 and len(self.mine) < 2:
            self.mine.append("x%d" % (len(self.mine) + 1))
            self.add(op="mine", o=self.mine[-1], l=r.randrange(6), worker=r.randrange(2))
        elif k < 0.74 and self.init and "P" not in self.live:
            self.live.add("P")
            self.add(op="own", s="P", l=r.randrange(6))
        elif k < 0.76 and not self.declared:
            self.declared = True
            self.add(op="declare")
        elif k < 0.82:
            if self.live & {"A", "B", "Default"} and r.random() < 0.7:
                self.add(op="slook", s=r.choice(sorted(self.live & {"A", "B", "Default"})))
            else:
                self.add(op="look", s=r.choice(["P", "C"]))
        elif k < 0.85 and names:
            self.add(op="olook", o=r.choice(names))
        elif k < 0.89:
            self.add(op="print")
        elif k < 0.93 and self.setup:
            self.down()
        elif k < 0.96 and self.setup:
            self.initialise()
        elif k < 0.98 and self.init:
            self.add(op="configure")
            self.alive()
            self.created()
        elif self.setup and not self.init and r.random() < 0.5:
            self.configure()
        else:
            self.log()


def episode(rng, setup):
    s = Session(rng, setup)
    s.c = {}
    if rng.random() < 0.85:
        s.configure()
    if setup and rng.random() < 0.3:
        s.log()
    if not setup or rng.random() < 0.8:
        s.initialise()
    for _ in range(rng.randrange(4, 30)):
        s.step()
    return s.ops
