"""The attribute tree: a forest of nodes edited and looked up in every way."""
import json

NAMES = ["a", "b", "a1", "a2", "9", "10", "n99", "_COMMENT_", "x y", "1", "2"]
SPECIAL = ["_ATTRIBUTE_TREE_FILE_PATH_", "_ATTRIBUTE_TREE_FILE_NAME_"]
TEXTS = ["", "x", "y", "some text", "two\nlines", "a:b{}", "7" * 60]


def b(s):
    return list(s.encode("latin1"))


def fix(op, alt):
    """Optional texts of the model: [] is none, [text] is a text."""
    o = {}
    for k, v in op.items():
        if k in ("d", "a") and isinstance(v, list):
            o[k] = "-" if v == [] else v[0]
        else:
            o[k] = v
    o["alt"] = alt
    if o["op"] in ("appendAttr", "appendDesc") and "sep" not in o:
        o["sep"] = "-"
    return o


def gen(rng, episodes, ops):
    eps = []
    for _ in range(episodes):
        n, alive = 0, {}          # the generator only has to know which nodes exist and who is below whom
        par, kids = {}, {}
        names = rng.sample(NAMES, rng.randrange(2, 6)) + ([rng.choice(SPECIAL)] if rng.random() < 0.3 else [])
        ep = [{"op": "new"}]
        # Node numbers are only known to the specification, so an episode uses the nodes it made itself by "make".
        made = []

        def below(x, y):
            while x:
                if x == y:
                    return True
                x = par[x]
            return False
        lookonly = False
        for _ in range(rng.randrange(8, ops)):
            k = rng.random()
            if not made or (len(made) < 9 and not lookonly and k < 0.18):
                n += 1
                p = rng.choice(made + [0]) if rng.random() < 0.8 else 0
                par[n] = p
                made.append(n)
                ep.append({"op": "make", "p": p, "d": [b(rng.choice(names))] if rng.random() < 0.95 else []})
                continue
            h = rng.choice(made)
            path = [rng.choice(names) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 0]))]
            a = [b(rng.choice(TEXTS))] if rng.random() < 0.8 else []
            d = [b(rng.choice(names))]
            num = [b(rng.choice(["a", "a1", "9", "x99", "b12", "", "n1x", "z9999"]))]
            o = None
            if k < 0.22:
                o = {"op": "setAttr", "a": a}
            elif k < 0.27:
                o = {"op": "setDesc", "d": d}
            elif k < 0.32:
                o = {"op": rng.choice(["appendAttr", "appendDesc"]), "a": [b(rng.choice(["z", "1", "\n"]))] if rng.random() < 0.8 else []}
                if rng.random() < 0.5:
                    o["sep"] = b(rng.choice([",", "\n", ""]))
            elif k < 0.42:
                t = rng.choice(made)
                if below(h, t):
                    continue
                if rng.random() < 0.5:
                    o = {"op": "add", "t": t}
                    par[t] = h
                else:
                    o = {"op": "addNext", "t": t}
                    if below(par[h], t):
                        continue
                    if par[h]:
                        par[t] = par[h]
            elif k < 0.46:
                o = {"op": "unlink"}
                par[h] = 0
            elif k < 0.48:
                o = {"op": "revert"}
            elif k < 0.52:
                o = {"op": "unmark"}
            elif k < 0.62:
                o = {"op": "ask"}
            elif k < 0.7:
                o = {"op": "get", "path": b(".".join(path)), "a": a}
            elif k < 0.74:
                o = {"op": "isAttr", "path": b(".".join(path)), "a": a}
            elif k < 0.78:
                o = {"op": "search", "d": d, "a": a if rng.random() < 0.5 else []}
            elif k < 0.8:
                o = {"op": "getSub", "d": d}
            elif k < 0.84:
                o = {"op": "fresh", "d": num}
            elif k < 0.86:
                o = {"op": "unlinkSub"}
                for c in list(par):
                    if par[c] == h:
                        par[c] = 0
            else:
                # From here on the numbers of further nodes are known to the specification only: no more "make".
                lookonly = True
                o = rng.choice([{"op": "set", "path": b(".".join(path)), "a": a}, {"op": "getOr", "path": b(".".join(path) or "a"), "a": a},
                                {"op": "set", "path": b(".".join(path)), "a": a}, {"op": "setComment", "a": a},
                                {"op": "subTree", "d": d}, {"op": "addNew"}, {"op": "copy", "p": rng.choice(made + [0])}, {"op": "delete"}])
                if o["op"] == "delete":
                    if len(made) < 3 or rng.random() < 0.5:
                        continue
                    made[:] = [x for x in made if not below(x, h)]
            o["h"] = h
            ep.append(o)
            if not made:
                break
        eps.append(ep)
    return eps


def run(ctx):
    rng = ctx.rng
    binary = ctx.compile("h_tree", ["h_tree.cpp"], libs=["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread"])
    acts = ["make", "copy", "delete", "unlink", "set", "add", "addNext", "fresh", "revert", "unmark"]
    m = ctx.model("TreeMC", want_edges=True, expect_actions=acts)
    eps = ctx.edge_cover(m["edges"], lambda adj: {json.dumps([]): {"op": "new"}}, max_len=200)
    ctx.conform("TreeTrace", binary, ctx.write_script("cover", [[fix(o, rng.randrange(2)) for o in ep] for ep in eps]), cfg="Trace.cfg", label="cover", timeout=300)
    if not ctx.quick:
        ctx.model("TreeMC", cfg="TreeMCbig.cfg", timeout=1500)
        m = ctx.model("TreeMC", cfg="TreeMCtri.cfg", want_edges=True)
        eps = ctx.edge_cover(m["edges"], lambda adj: {json.dumps([]): {"op": "new"}}, max_len=200)
        ctx.conform("TreeTrace", binary, ctx.write_script("tri", [[fix(o, rng.randrange(2)) for o in ep] for ep in eps]), cfg="Trace.cfg", label="tri", timeout=600, tlc_timeout=1500)
    eps = gen(rng, 500 if ctx.quick else 8000, 60)
    ctx.conform("TreeTrace", binary, ctx.write_script("random", [[fix(o, rng.randrange(2)) for o in ep] for ep in eps]), cfg="Trace.cfg", label="random", timeout=300, tlc_timeout=800)
