"""Which design models, generated histories and trace specifications decide which property."""
import gen

def sample(rng, xs, n): return xs if len(xs) <= n else rng.sample(xs, n)

def simulated(num): return ("-simulate", "num=%d" % num, "-depth", "8", "-seed", "{seed}")
MODELS = {"MCVec": {"name": "MCVec", "module": "MCVec"},
          "MCCell": {"name": "MCCell", "module": "MCCell"}, "MCHash": {"name": "MCHash", "module": "MCHash"},
          "MCIo": {"name": "MCIo", "module": "MCIo"}, "MCAlg": {"name": "MCAlg", "module": "MCAlg"},
          "MCOrd": {"name": "MCOrd", "module": "MCOrd"},
          "MCRange": {"name": "MCRange", "module": "MCRange"}, "MCRel": {"name": "MCRel", "module": "MCRel"},
          "MCShare": {"name": "MCShare", "module": "MCShare"},
          "MCTree6": {"name": "MCTree6", "module": "MCTree6", "extra": simulated(700)},
          "MCTree6+": {"name": "MCTree6", "module": "MCTree6", "extra": simulated(6000)},
          "MCBTree": {"name": "MCBTree", "module": "MCBTree", "workers": "2"},
          "MCBTree+": {"name": "MCBTree", "module": "MCBTree", "cfg": "MCBTreeDeep.cfg", "workers": "6", "mem": "6g", "timeout": 800}}

def from_model(model, adapt, n):
    def f(rng, scripts):
        out = [adapt(x, rng) for x in sample(rng, scripts[model], n)]
        return [c for c in out if c]
    return f

def vec(focus, n, cfg="nb", unstable=None, **kw):
    if unstable is None: unstable = cfg.startswith("nb")
    return {"name": "vec-" + focus, "cfg": cfg, "trace": "TraceVec", "domain": "vec",
            "cases": lambda rng, sc: gen.gen_vec(rng, n, focus, unstable, **kw), **({"lines": 300} if kw.get("large") else {})}
def zst(n, cfg="nb"):
    return {"name": "vec-unsized", "cfg": cfg, "trace": "TraceVec", "domain": "zst", "cases": lambda rng, sc: gen.gen_zst(rng, n)}
def vecm(n, cfg="nb"):
    return {"name": "vec-model", "cfg": cfg, "trace": "TraceVec", "domain": "vec", "cases": from_model("MCVec", gen.adapt_vec, n)}

def om(focus, n, setd=False, cfg="nb", **kw):
    return {"name": ("set-" if setd else "map-") + focus, "cfg": cfg, "trace": "TraceOrd", "domain": "set" if setd else "ord",
            "cases": lambda rng, sc: gen.gen_ord(rng, n, focus, setd=setd, **kw)}
def tree(focus, n, setd=False, cfg="nb"):
    return {"name": ("settree-" if setd else "tree-") + focus, "cfg": cfg, "trace": "TraceOrd", "domain": "set" if setd else "ord",
            "cases": lambda rng, sc: [gen.adapt_tree(h, rng, focus, setd, i % 3 == 0) for i, h in enumerate(gen.cover(sc["MCTree6"], n, rng))]}
def thin(n, setd=False):
    return {"name": "setthin" if setd else "thin", "cfg": "nb", "trace": "TraceOrd", "domain": "set" if setd else "ord", "cases": lambda rng, sc: gen.gen_thin(rng, n, setd)}
def tall(n, setd=False):
    return {"name": "settall" if setd else "tall", "cfg": "nb", "trace": "TraceOrd", "domain": "set" if setd else "ord", "lines": 60, "cases": lambda rng, sc: gen.gen_tall(rng, n, setd)}
def os_(focus, n, **kw): return om(focus, n, True, **kw)
def hm(focus, n, cfg="sh", **kw):
    return {"name": "hash-" + focus, "cfg": cfg, "trace": "TraceHash", "domain": "hash", "cases": lambda rng, sc: gen.gen_hash(rng, n, focus, **kw)}
def cell(focus, n, cfg="nb"):
    return {"name": "cell-" + focus, "cfg": cfg, "trace": "TraceCell", "domain": "cell", "cases": lambda rng, sc: gen.gen_cell(rng, n, focus, cfg)}
def io(focus, n, cfg="nb", **kw):
    return {"name": "io-" + focus, "cfg": cfg, "trace": "TraceIo", "domain": "io", "cases": lambda rng, sc: gen.gen_io(rng, n, focus, **kw)}
def fmt(focus, n, cfg="nb", **kw):
    return {"name": "fmt-" + focus, "cfg": cfg, "trace": "TraceFmt", "domain": "fmt", "cases": lambda rng, sc: gen.gen_fmt(rng, n, focus, **kw)}
def shape(focus, n, cfg="nb"):
    return {"name": "shape-" + focus, "cfg": cfg, "trace": "TraceShape", "domain": "shape", "cases": lambda rng, sc: gen.gen_shape(rng, n, focus, cfg)}
def cellm(n, cfg="nb"):
    return {"name": "cell-model", "cfg": cfg, "trace": "TraceCell", "domain": "cell", "cases": from_model("MCCell", gen.adapt_cell, n)}
def hashm(n, cfg="sh"):
    return {"name": "hash-model", "cfg": cfg, "trace": "TraceHash", "domain": "hash", "cases": from_model("MCHash", gen.adapt_hash, n)}
def iom(n, cfg="nb"):
    return {"name": "io-model", "cfg": cfg, "trace": "TraceIo", "domain": "io", "cases": lambda rng, sc: gen.io_plans(sc["MCIo"], n, rng)}
def algm(n=1024):
    return {"name": "set-model", "cfg": "nb", "trace": "TraceOrd", "domain": "set", "cases": from_model("MCAlg", gen.adapt_alg, n)}
def ordm(n, setd=False):
    def f(rng, sc):
        some = [x for x in sc["MCOrd"] if x.startswith("CASES" if setd else "CASEM")]
        return [gen.adapt_ord(x, rng, setd) for x in sample(rng, some, n)]
    return {"name": "setmap-model" if setd else "map-model", "cfg": "nb", "trace": "TraceOrd", "domain": "set" if setd else "ord", "cases": f}
def rangem(n, setd=False):
    return {"name": "setrange-model" if setd else "range-model", "cfg": "nb", "trace": "TraceOrd", "domain": "set" if setd else "ord", "cases": lambda rng, sc: gen.range_table(sc["MCRange"], n, rng, setd)}
def relm(n=729):
    return {"name": "rel-model", "cfg": "nb", "trace": "TraceOrd", "domain": "ord", "cases": from_model("MCRel", gen.adapt_rel, n)}
def deep(focus, n, setd=False): return dict(om(focus, n, setd, sizes=(700, 1000), fill=True, nops=(3, 7)), lines=1200)
def scarce(job): return dict(job, name=job["name"] + "-scarce", cases=lambda rng, sc: gen.without_memory(job["cases"](rng, sc), rng))
def lie(n, setd=False, **kw):
    return {"name": "setlie" if setd else "lie", "cfg": "nb", "trace": "TraceLie", "domain": "set" if setd else "ord", "cases": lambda rng, sc: gen.gen_lie(rng, n, setd, **kw)}
def share(n, cfg="nb", **kw):
    return {"name": "share", "cfg": cfg, "trace": "TraceShare", "domain": "share", "cases": lambda rng, sc: gen.gen_share(rng, n, kinds="MS" if cfg.startswith("nb") else "H", **kw)}
def sharem(n, cfg="nb"):
    return {"name": "share-model", "cfg": cfg, "trace": "TraceShare", "domain": "share", "cases": from_model("MCShare", lambda x, rng: gen.adapt_share(x[4:], rng, "MS" if cfg.startswith("nb") else "H"), n)}
def marks(cfg):
    return {"name": "marks", "cfg": cfg, "trace": "TraceShare", "domain": "mark", "cases": lambda rng, sc: gen.gen_marks(cfg)}
SMALL, MED, BIG = (6, 12, 12, 30), (12, 30, 60, 90), (150, 220, 400)

def plan(pid, tier):
    q = tier != "thorough"
    k = 1 if q else 20
    J, M = [], []
    TREE = ["MCTree6", "MCBTree"] if q else ["MCTree6+", "MCBTree+"]
    if pid == "C01":
        J = [vec("alloc", 200 * k), vec("alloc", 100 * k, "ssr"), vec("alloc", 15 * k, large=900), zst(20 * k), zst(20 * k, "ssr"), om("fail", 120 * k, sizes=MED), os_("fail", 60 * k, sizes=MED), om("dup", 60 * k, sizes=SMALL),
             hm("fail", 60 * k), hm("fail", 40 * k, "ss"), cell("fail", 60 * k), cell("fail", 30 * k, "ss"), io("fail", 80 * k), io("fail", 50 * k, "ssr"),
             fmt("fail", 60 * k), shape("mix", 80 * k), shape("mix", 50 * k, "sh")]
    elif pid == "C02":
        M = ["MCVec"]; J = [vecm(2500 * k), vec("alloc", 250 * k), vec("mix", 30 * k, large=900), vec("dup", 150 * k), vec("mix", 150 * k, "ss"), zst(20 * k)]
    elif pid == "C03":
        M = ["MCVec"]; J = [vecm(2500 * k), vec("mix", 250 * k), vec("mix", 30 * k, large=2500), vec("mix", 20 * k, "ssr", large=1200), vec("show", 150 * k), vec("long", 60 * k), vec("mix", 150 * k, "ssr"), zst(20 * k)]
    elif pid == "C04":
        M = ["MCVec"]; J = [vecm(1000 * k), vec("cap", 200 * k), vec("cap", 15 * k, large=1200), vec("long", 60 * k), vec("cap", 100 * k, "ssr"), zst(20 * k), zst(20 * k, "ssr")]
    elif pid == "C05":
        M = TREE; J = [tree("mix", 16 * k), tree("mix", 8 * k, True), deep("mix", 4 * k), vec("mix", 150 * k), vec("mix", 15 * k, large=900), vec("panic", 80 * k), om("mix", 100 * k), om("iter", 40 * k), om("split", 40 * k), os_("mix", 60 * k), om("mix", 12 * k, sizes=BIG, fill=True), os_("iter", 5 * k, sizes=BIG, fill=True),
             hm("mix", 40 * k), hm("dup", 30 * k, "ss"), cell("mix", 60 * k), cell("mix", 40 * k, "ss"), shape("mix", 60 * k), io("mix", 30 * k), fmt("mix", 20 * k)]
    elif pid == "C06":
        M = ["MCHash"]; J = [hashm(1500 * k), hashm(1000 * k, "ss"), hm("mix", 130 * k), hm("mix", 100 * k, "ss"), hm("fail", 80 * k), hm("fail", 60 * k, "ss"), hm("dup", 60 * k), hm("dup", 40 * k, "ss"),
             hm("room", 60 * k), hm("room", 40 * k, "ss"), hm("mix", 10 * k, sizes=BIG, nops=(40, 90)), hm("mix", k, sizes=(1500,), nops=(6, 12)), hm("thin", k, "ss", sizes=(1500,), nops=(2, 4)), hm("thin", 30 * k), hm("thin", 20 * k, "ss")]
    elif pid == "C07":
        M = TREE + ["MCOrd"]; J = [ordm(1200 * k), ordm(500 * k, True), tree("look", 36 * k), tree("look", 12 * k, True), deep("look", 4 * k), om("look", 250 * k), om("mix", 150 * k), om("look", 25 * k, sizes=BIG, fill=True), os_("mix", 150 * k)]
    elif pid == "C08":
        M = TREE; J = [tree("iter", 30 * k), tree("iter", 15 * k, True), deep("iter", 4 * k), om("iter", 200 * k), os_("iter", 120 * k), om("iter", 15 * k, sizes=BIG, fill=True)]
    elif pid == "C09":
        M = TREE + ["MCRange"]; J = [rangem(16000 if k > 1 else 8000), rangem(16000 if k > 1 else 4000, True), tree("range", 30 * k), tree("range", 15 * k, True), deep("range", 4 * k), om("range", 200 * k), os_("range", 120 * k), om("range", 15 * k, sizes=BIG, fill=True)]
    elif pid == "C10":
        M = TREE + ["MCOrd"]; J = [ordm(400 * k), ordm(200 * k, True), thin(8 * k), thin(4 * k, True), tall(2 * k), tall(k, True), tree("split", 30 * k), tree("split", 12 * k, True), deep("split", 4 * k), om("split", 200 * k, sizes=MED), om("split", 25 * k, sizes=BIG, fill=True), os_("split", 100 * k), os_("split", 10 * k, sizes=BIG, fill=True)]
    elif pid == "C11":
        M = TREE + ["MCOrd"]; J = [ordm(800 * k), ordm(300 * k, True), tree("fail", 30 * k), tree("fail", 12 * k, True), om("fail", 200 * k, sizes=MED), om("fail", 15 * k, sizes=BIG, fill=True), os_("fail", 80 * k, sizes=MED), om("dup", 60 * k)]
    elif pid == "C12":
        M = TREE; J = [thin(10 * k), thin(4 * k, True), tall(2 * k), tree("cost", 30 * k), tree("cost", 10 * k, True), deep("cost", 4 * k), om("cost", 80 * k, sizes=MED), om("cost", 40 * k, sizes=BIG, fill=True), om("split", 30 * k, sizes=BIG, fill=True), os_("split", 15 * k, sizes=BIG, fill=True), om("fail", 30 * k, sizes=MED)]
    elif pid == "C13":
        M = ["MCAlg"]; J = [algm(), os_("alg", 300 * k), os_("alg", 20 * k, sizes=BIG, fill=True)]
    elif pid == "C14":
        M = TREE + ["MCOrd"]; J = [ordm(1200 * k), ordm(600 * k, True), tree("keep", 15 * k), tree("keep", 10 * k, True), om("keep", 200 * k), os_("keep", 200 * k), om("keep", 15 * k, sizes=BIG, fill=True)]
    elif pid == "C15":
        M = TREE + ["MCHash", "MCCell"]; J = [hashm(400 * k), cellm(400 * k), tree("dup", 15 * k), vec("dup", 150 * k), vec("dup", 15 * k, large=900), om("dup", 120 * k), om("dup", 10 * k, sizes=BIG, fill=True),
             hm("dup", 60 * k), hm("dup", 40 * k, "ss"), cell("mix", 60 * k), cell("mix", 40 * k, "ss"), shape("mix", 200 * k), shape("mix", 120 * k, "sh"), shape("mix", 60 * k, "ss")]
    elif pid == "C16":
        M = ["MCCell"]; J = [cellm(1500 * k), cellm(1000 * k, "ss"), cellm(400 * k, "ssr"), cell("mix", 300 * k), cell("fail", 150 * k), cell("mix", 200 * k, "ss"), cell("fail", 100 * k, "ss"), cell("mix", 100 * k, "ssr")]
    elif pid == "C17":
        M = ["MCIo"]; J = [iom(2000 * k), iom(1200 * k, "ss"), iom(600 * k, "ssr"), io("long", 60 * k, nops=(3, 8)), io("long", 40 * k, "ssr", nops=(3, 8)), io("mix", 300 * k), io("fail", 150 * k), io("mix", 200 * k, "ss"), io("fail", 100 * k, "ss"), io("mix", 150 * k, "ssr")]
    elif pid == "C18":
        J = [fmt("long", 60 * k, nops=(3, 8)), fmt("long", 40 * k, "ssr", nops=(3, 8)), fmt("mix", 500 * k), fmt("fail", 300 * k), fmt("mix", 300 * k, "ss"), fmt("fail", 200 * k, "ss"), fmt("mix", 200 * k, "ssr")]
    elif pid == "C19":
        M = ["MCHash", "MCOrd"]; J = [ordm(500 * k), ordm(250 * k, True), hashm(600 * k), vec("panic", 200 * k), vec("panic", 10 * k, large=900), om("panic", 120 * k), os_("panic", 100 * k), om("panic", 8 * k, sizes=BIG, fill=True), hm("panic", 80 * k), hm("panic", 50 * k, "ss"), shape("panic", 80 * k), shape("panic", 60 * k, "sh"), cell("mix", 30 * k)]
    elif pid == "C20":
        M = ["MCRel"]; J = [relm(), om("rel", 200 * k), os_("rel", 100 * k), om("rel", 8 * k, sizes=BIG, fill=True), vec("show", 150 * k), vec("show", 20 * k, large=900)]
    elif pid == "C21":
        M = ["MCVec"]; J = [vecm(500 * k), vec("make", 300 * k), vec("make", 30 * k, large=3000), vec("make", 100 * k, "ssr")]
    elif pid == "C22":
        J = [lie(700 * k), lie(35 * k, sizes=(120, 200), fill=True), lie(450 * k, True), lie(20 * k, True, sizes=(120, 200), fill=True)]
    elif pid == "C23":
        M = TREE; J = [scarce(x) for x in [tree("mix", 16 * k), tree("iter", 8 * k, True), om("mix", 80 * k), om("iter", 40 * k), om("range", 40 * k), om("look", 60 * k), om("rel", 40 * k), om("cost", 20 * k, sizes=BIG, fill=True),
             os_("mix", 50 * k), os_("alg", 70 * k), hm("mix", 60 * k), hm("mix", 40 * k, "ss"), hm("thin", 30 * k), hm("thin", 25 * k, "ss"), vec("mix", 200 * k), vec("show", 80 * k), vec("mix", 100 * k, "ssr"), cell("mix", 80 * k), cell("mix", 60 * k, "ss")]]
    elif pid == "C24":
        M = TREE + ["MCShare"]; J = [sharem(300 * k), sharem(100 * k, "ss"), share(300 * k), share(60 * k, "sh"), share(60 * k, "ss"), share(6 * k, sizes=(400, 900), nops=(6, 12)),
             tree("look", 6 * k), tree("iter", 6 * k), tree("range", 6 * k, True), om("look", 40 * k), om("iter", 40 * k), om("range", 50 * k), om("rel", 40 * k), om("dup", 30 * k), om("look", 5 * k, sizes=BIG, fill=True), os_("alg", 50 * k), os_("iter", 30 * k),
             hm("mix", 40 * k), hm("dup", 20 * k, "ss"), vec("show", 80 * k), vec("dup", 60 * k, "ss")]
    elif pid == "C25":
        M = ["MCShare"]; J = [marks("nb"), marks("sh"), marks("ss")]
    return {"models": [MODELS[m] for m in M], "jobs": J}
NOTES = {}
DONE = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25'.split()
