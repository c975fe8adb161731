"""Plugin managers."""
import concurrent.futures
import json
import os

LIBS = ["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread", "icl_core_plugin"]
SO = {"a1": ["-DPLUGIN_GOOD", "-DBASE=Tool", '-DKIND="a1"', '-DID="a"'], "a2": ["-DPLUGIN_GOOD", "-DBASE=Tool", '-DKIND="a2"', '-DID="a"'],
      "b1": ["-DPLUGIN_GOOD", "-DBASE=Tool", '-DKIND="b1"', '-DID="b"'], "c1": ["-DPLUGIN_GOOD", "-DBASE=Tool", '-DKIND="c1"', '-DID="c"'],
      "other": ["-DPLUGIN_GOOD", "-DBASE=Another", '-DKIND="other"', '-DID="o"'], "noid": ["-DBASE=Tool", "-DNOID"], "nobase": ["-DBASE=Tool", '-DID="q"', "-DNOBASE"],
      "noload": ["-DBASE=Tool", '-DID="n"', "-DNOLOAD"], "null": ["-DBASE=Tool", '-DID="z"']}
IDS = ["a", "b", "c", "o", "q", "n", "z", "u", "linked"]


def episode(rng):
    dirs = ["p", "p/q", "p/q/r", "s", "s/t"]
    names = rng.sample(["m", "n.so", "k", "x1", "lib.so.2", "readme.txt", "w"], rng.randrange(0, 7))
    kinds = list(SO) + ["garbage", "empty"]
    files = ["p/w0:empty"] if rng.random() < 0.2 else []
    files += ["%s/%s:%s" % (rng.choice(dirs), n, rng.choice(kinds + ["a1", "a2", "b1", "c1"])) for n in names]
    first = "=" if rng.random() < 0.3 else None
    paths = ([first] if first else []) + [rng.choice(["p", "p", "s", "p/q", "nowhere", "s/t"]) for _ in range(rng.randrange(0 if first else 1, 3))]
    ep = [{"op": "new", "files": ",".join(files), "paths": ",".join(paths)}]
    for _ in range(rng.randrange(3, 25)):
        i = rng.choice(IDS)
        ep.append(rng.choice([{"op": "init", "lazy": rng.randrange(2), "rec": rng.randrange(2)}] + [{"op": "plugin", "id": i}] * 3 + [{"op": "create", "id": i}] * 2 +
                             [{"op": "avail"}, {"op": "all"}, {"op": "all"}, {"op": "hand", "id": i, "n": rng.randrange(1, 100)}, {"op": "drop", "id": i}, {"op": "isstatic", "id": i},
                              {"op": "path", "p": rng.choice(["", "p", "s", "nowhere"])}, {"op": "paths"}, {"op": "errors"}, {"op": "errors"}, {"op": "state"}]))
    # (numbers of what is handed over are told apart)
    for k, o in enumerate(ep):
        if o["op"] == "hand":
            o["n"] = k
    if rng.random() < 0.6:
        ep.append({"op": "errors"})
        ep.append({"op": "del"})
    return ep


def run(ctx):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        jobs = [ex.submit(ctx.compile, k + ".so", ["plugin_lib.cpp"], flags=f, asan=False, opt="-O0", shared=True) for k, f in SO.items()]
        binary = ctx.compile("h_plugin", ["h_plugin.cpp"], libs=LIBS, link=["-rdynamic"])
        for j in jobs:
            j.result()
    env = {"PLUGINS": ctx.scratch}
    m = ctx.model("PluginsMC", want_edges=True, expect_actions=["init", "plugin", "create", "hand", "drop", "avail", "all", "path"])
    first = {}
    for d in m["edges"]:
        p = d["s"][0]
        if not d["s"][1] and not d["s"][5] and len(d["s"][4]) == 0 and p in ([["p"]], [["r"], ["nowhere"]]):
            first[json.dumps(d["s"], sort_keys=True)] = {"op": "new", "files": "p/a:a1,p/g:garbage,p/q/b:b1,r/n:null,r/i:noid", "paths": ",".join("/".join(x) for x in p)}
    eps = ctx.edge_cover(m["edges"], lambda adj: first, max_len=60)
    for ep in eps:
        for o in ep:
            if o["op"] == "path":
                o["p"] = "/".join(o["p"])
        ep += [{"op": "errors"}, {"op": "del"}]
    ctx.conform("PluginsTrace", binary, ctx.write_script("cover", eps), cfg="Trace.cfg", label="cover", timeout=600, env=env)
    ctx.conform("PluginsTrace", binary, ctx.write_script("random", [episode(ctx.rng) for _ in range(1500 if ctx.quick else 20000)]), cfg="Trace.cfg", label="random", timeout=700, tlc_timeout=800, env=env)
