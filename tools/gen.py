"""Script generators.  A script is a list of cases, a case a list of lines for the executor.
Values and faults are drawn from a seeded generator; what the calls must do is the specification's business."""
import random

def lst(vs): return ",".join(map(str, vs)) if vs else "-"

# ---------------------------------------------------------------- vectors
WRAP_OPS = {"push", "reserve", "withcap", "append", "resizewith", "extendnc", "clear", "pop", "set", "it", "concat",
            "tryclone", "fromslice", "fromvec", "collect", "eq", "dbg", "drop"}
PLAIN_OPS = {"push", "pushgb", "reserve", "withcap", "insert", "append", "resize", "resizenc", "resizewith", "extend",
             "extendnc", "clear", "pop", "set", "it", "tryclone", "collect", "fromelem", "tryvec", "dbg", "drop"}
VEC_W = {  # weights per profile; default 1
    "base": {"push": 6, "pushgb": 3, "insert": 4, "append": 4, "resize": 3, "resizenc": 4, "resizewith": 3, "extend": 3,
             "extendnc": 4, "reserve": 3, "withcap": 1, "it": 3, "concat": 3, "tryclone": 2, "fromslice": 2, "fromvec": 1,
             "collect": 3, "eq": 3, "dbg": 1, "fromelem": 3, "tryvec": 2, "set": 2, "pop": 2, "clear": 1, "drop": 1},
}
DUPS = {"resizenc", "extendnc", "tryclone", "concat", "fromslice", "fromelem"}
ALLOCS = {"push", "pushgb", "reserve", "withcap", "insert", "append", "resize", "resizenc", "resizewith", "extend", "extendnc",
          "concat", "tryclone", "fromslice", "collect", "fromelem", "tryvec"}

def gen_vec(rng, ncases, focus="mix", unstable=True, nops=(6, 22), large=0, kinds=None):
    """focus: mix, alloc, panic, plain (no faults), cap (capacity), long, dup, make, show"""
    cases = []
    for _ in range(ncases):
        wrap = rng.random() < 0.45
        kind = rng.choice(kinds or "TTTHHAZBWCSMOIF" + "L" * (not large))
        if focus in ("panic", "dup") and not kinds: kind = rng.choice("TTTHHAZIIL")
        if focus == "dup" and rng.random() < 0.1: kind = rng.choice("CF")
        if focus == "show" and rng.random() < 0.2: kind = "F"
        c = ["case vec %s %s" % (kind, "w" if wrap else "p")]
        ops = set(WRAP_OPS if wrap else PLAIN_OPS)
        copy = kind in "BWCSMOF"
        if kind in "WMO": ops.discard("dbg")
        if not copy: ops -= {"resize", "extend"}
        if not unstable: ops -= {"fromelem", "tryvec"}
        w = dict(VEC_W["base"])
        if focus == "cap": w.update(reserve=8, push=14, withcap=3, pop=4, clear=2, drop=0, it=0.5, eq=0.3)
        if focus == "make": w.update(collect=10, fromelem=10, tryvec=8, fromslice=8, fromvec=8, concat=6)
        if focus == "dup": w.update(tryclone=14, push=4)
        if focus == "show": w.update(eq=14, dbg=8, push=8, set=4)
        names = sorted(o for o in ops)
        ws = [w.get(o, 1) for o in names]
        ln = [0, 0, 0]          # lengths if all goes well; None when a fault may have changed them
        big = rng.random() < (0.5 if focus in ("cap", "long") else 0.12)
        val = lambda: rng.randrange(0, 100)
        def vals(mx):
            r = rng.random()
            n = 0 if r < 0.12 else rng.randrange(1, 5) if r < (0.4 if large else 0.8) else rng.randrange(1, mx)
            return [val() for _ in range(n)]
        mx = large or (70 if big else 9)
        for _ in range(rng.randrange(*nops) * (3 if focus in ("cap", "long") and big else 1)):
            op = rng.choices(names, ws)[0]
            s = rng.randrange(3) if rng.random() < 0.5 else 0
            L = ln[s] or 0
            bad = False
            huge = False
            z = rng.random()
            H = rng.choice(["max", "imax", "imax1", "half", "tb"])
            if op in ("push", "pushgb"):
                a = str(val())
                if focus in ("cap", "long") and rng.random() < 0.3:
                    by = rng.choice([op, op, "extendnc"] + (["extend"] if "extend" in ops else []))
                    for _ in range(rng.randrange(2, 40 if big else 12)):
                        c.append("%s %d %d" % (by, s, val())); ln[s] = None if ln[s] is None else ln[s] + 1
            elif op == "reserve":
                huge = z < 0.12
                a = H if huge else str(rng.choice([0, 1, 2, 3, 5, 8, 17, 40]))
            elif op == "withcap":
                huge = z < 0.15
                a = H if huge else str(rng.choice([0, 1, 2, 5, 16, 33]))
            elif op == "insert":
                bad = z < 0.06
                i = L + rng.randrange(1, 4) if bad else (rng.randrange(0, L + 1) if ln[s] is not None else 0)
                if z < 0.015: i = "max"
                a = "%s %d" % (i, val())
            elif op == "append":
                t = rng.choice([x for x in range(3) if x != s]); a = str(t)
            elif op == "tryclone":
                t = rng.choice([x for x in range(3) if x != s]); a = str(t)
            elif op in ("resize", "resizenc", "resizewith"):
                huge = z < 0.06 and kind != "Z"
                n = rng.choice([0, max(0, L - 2), max(0, L - 1), L, L + 1, L + 2, L + 4] + [rng.randrange(0, mx)] * (7 if large else 1))
                a = "%s %d" % (H if huge else n, val())
            elif op in ("extend", "extendnc", "fromslice", "fromvec"):
                v = vals(mx); a = lst(v) + (" s" if op == "fromslice" and kind == "B" and rng.random() < 0.5 else "")
            elif op == "set":
                bad = z < 0.06 or L == 0 or ln[s] is None
                if ln[s] is None: continue
                i = L + rng.randrange(0, 3) if bad else rng.randrange(0, L)
                a = "%d %d" % (i, val())
            elif op == "it":
                kd = rng.choice("rmbo") if wrap else "o"
                k = min(L + rng.randrange(0, 4), 150 if large else 60) if rng.random() < 0.7 else rng.randrange(0, 4)
                end = rng.choice("AAZZLK") if rng.random() < 0.35 else ""         # the rest at once
                if end and rng.random() < 0.7: k = rng.choice([0, 1, L // 2])
                a = "%s %s" % (kd, "".join(rng.choice("FFFBBBNR" if k < 9 else "FB") for _ in range(k)) + end or "F")
            elif op == "concat":
                parts = [vals(mx) for _ in range(rng.randrange(0, 5))]
                a = ";".join(lst(p) for p in parts) if parts else "."
            elif op == "collect":
                v = vals(mx); hint = rng.choice([0, 0, len(v) + 1, max(1, len(v) // 2), len(v) + 3])
                huge = z < 0.05 and kind != "Z"
                up = rng.choice(["", " n", " n", " max", " half", " imax", " %d" % len(v), " %d" % (len(v) + rng.randrange(1, 60))])
                a = "%s %s%s" % (lst(v), "max" if huge else hint if up in ("", " n") else rng.choice([0, len(v) + 1]), up)
            elif op == "fromelem":
                huge = z < 0.08 and kind != "Z"
                n = rng.choice([0, 1, 2, 3, 4, 5, 8] + [rng.randrange(0, mx)] * (9 if large else 1))
                a = "%s %d" % (H if huge else n, rng.choice([0, 0, val()]))
            elif op == "tryvec":
                a = lst([val() for _ in range(rng.randrange(0, 4))])
            elif op == "eq":
                r = rng.random()
                v = [val() for _ in range(rng.randrange(0, large // 2 if large else 5))]
                a = lst(v)
                if r < 0.6:   # make them equal, or nearly so
                    c.append("fromslice %d %s" % (s, lst(v)))
                    ln[s] = len(v)
                    v2 = list(v)
                    q = rng.random()
                    if q < 0.3 and v2: v2[rng.randrange(len(v2))] += 1
                    elif q < 0.4 and v2: v2.pop()
                    elif q < 0.5: v2.append(val())
                    a = lst(v2)
            else:
                a = ""
            small = (op not in ("append", "tryclone") or L <= 12) and len(a) < 40
            f = None
            if focus != "plain" and not bad and not huge and small:
                r = rng.random()
                pa = {"mix": 0.2, "alloc": 0.6, "panic": 0.05, "cap": 0.06, "long": 0.05, "make": 0.25, "dup": 0.25, "show": 0.05}[focus]
                pc = {"mix": 0.15, "alloc": 0.15, "panic": 0.05, "cap": 0.02, "long": 0.02, "make": 0.2, "dup": 0.35, "show": 0.02}[focus]
                pp = {"mix": 0.1, "alloc": 0.0, "panic": 0.6, "cap": 0.0, "long": 0.0, "make": 0.1, "dup": 0.1, "show": 0.0}[focus]
                if r < pa and op in ALLOCS: f = rng.choice(["!sa", "!sa", "!ss", "!a 1 0", "!a 2 1"])
                elif r < pa + pc and op in DUPS and not copy: f = rng.choice(["!sc", "!sc", "!c %d" % rng.randrange(1, 6)])
                elif r < pa + pc + pp:
                    k = None
                    if op in DUPS and not copy: k = "c"
                    if op == "resizewith": k = "g"
                    if op == "collect": k = "i"
                    if op in ("clear", "resizenc", "resizewith") and kind in "TAHZ" and rng.random() < 0.4: k = "d"
                    if k: f = rng.choice(["!sp " + k, "!p %s %d" % (k, rng.randrange(1, 6))])
            if f: c.append(f)
            c.append(("%s %d %s" % (op, s, a)).strip())
            # lengths afterwards
            keep = f is None or f in ("!sa", "!ss")
            if huge: ln[s] = None
            if bad or huge: continue
            if op in ("push", "pushgb", "insert"): n2 = None if ln[s] is None else ln[s] + 1
            elif op in ("clear", "withcap", "drop"): n2 = 0
            elif op == "pop": n2 = None if ln[s] is None else max(0, ln[s] - 1)
            elif op in ("resize", "resizenc", "resizewith"): n2 = n
            elif op in ("extend", "extendnc"): n2 = None if ln[s] is None else ln[s] + len(v)
            elif op in ("fromslice", "fromvec", "collect"): n2 = len(v)
            elif op == "tryvec": n2 = a.count(",") + 1 if a != "-" else 0
            elif op == "fromelem": n2 = n
            elif op == "concat": n2 = sum(map(len, parts))
            elif op == "append":
                n2 = None if ln[s] is None or ln[t] is None else ln[s] + ln[t]
                ln[t] = 0 if keep else None
            elif op == "tryclone":
                n2 = ln[s]; ln[t] = ln[s] if keep else None
            elif op == "it": n2 = ln[s] if a[0] != "o" else 0
            else: n2 = ln[s]
            ln[s] = n2 if keep else None
        cases.append(c)
    return cases

def gen_zst(rng, ncases):
    cases = []
    for _ in range(ncases):
        c = ["case zst - -"]
        for _ in range(12):
            wr = rng.choice("wp")
            op = rng.choice(["push", "reserve", "append", "extendnc"] + (["pushgb", "insert", "extend"] if wr == "p" else ["concat", "concat"]))
            small = lambda: str(rng.choice([0, 1, 2, 3, 7, 30]))
            big = lambda: "m%d" % rng.choice([0, 0, 1, 2, 3, 29, 30, 31])
            a, b = rng.choice([(small, small), (big, small), (big, small), (small, big), (big, big)])
            a, b = a(), b()
            if op == "extendnc" and b[0] == "m" and not (a[0] == "m" or int(a) > int(b[1:])): a = "m0"   # would take for ever
            if op == "concat":      # any two, if they cannot be had in one; else few
                if a[0] == b[0] == "m" or (a + b).count("m") == 1 and int(max(a, b).lstrip("m")) < int(min(a, b)): pass
                else: a, b = small(), small()
            c.append("zx %s %s %s %s" % (op, wr, a, b))
        cases.append(c)
    return cases

def adapt_vec(line, rng):
    """A behaviour of MCVec, as a case for one of the element kinds and flavours that support its calls."""
    calls = line.split("|")[1:]
    names = {x.split()[0] for x in calls if not x.startswith("!")}
    fl = [f for f, ops in (("p", PLAIN_OPS), ("w", WRAP_OPS)) if names <= ops]
    if not fl: return None
    return ["case vec %s %s" % (rng.choice("TTHHAL" if any(h in line for h in (" max", " tb")) else "TTHHAZL"), rng.choice(fl))] + calls

# ---------------------------------------------------------------- ordered maps and sets
FORWARD = str.maketrans("BRcdefghijWZ", "FN23456789XA")       # a walk that only goes forward
def steps(rng, n, c=True):
    """a walk over about n entries, possibly beyond the end"""
    k = rng.choice([n + 2, n + 2, n // 2, min(n, 3), n])
    end = rng.choice("AAZZLK") if rng.random() < 0.35 else ""         # the rest at once
    if end: k = rng.choice([0, 1, n // 2, max(n - 1, 0), k])
    mode = rng.random()
    if mode < 0.25: s = ["F"] * k
    elif mode < 0.5: s = ["B"] * k
    elif mode < 0.75: s = [rng.choice("FB") for _ in range(k)]
    else: s = ["F" if i % 2 else "B" for i in range(k)]
    if rng.random() < 0.35:         # skipping steps
        for i in range(len(s)):
            if rng.random() < 0.25: s[i] = rng.choice("RRcdefghijW") if s[i] == "B" else rng.choice("NN23456789X")
    if n <= 60:
        for _ in range(rng.choice([0, 0, 1, 2])): s.insert(rng.randrange(len(s) + 1), "D")
    if c:
        for _ in range(rng.choice([0, 0, 1, 2])): s.insert(rng.randrange(len(s) + 1), "C")
    return "".join(s) + end or "F"

ORD_FOCI = {
    # weights of operations
    "mix":   dict(ins=8, rm=6, get=4, getm=2, ent=8, it=3, rg=3, sp=2, ap=2, tcl=1, cl=1, rel=1, dbg=1, clear=0.4, drop=0.3, ext=1, fromit=0.3, scan=1),
    "look":  dict(ins=6, rm=6, get=10, getm=4, ent=10, scan=2, clear=0.3, ext=1),
    "iter":  dict(ins=4, rm=4, it=14, scan=1, ext=1, sp=0.6, ap=0.6),
    "range": dict(ins=4, rm=4, rg=16, scan=0.5, ext=1, sp=0.5, ap=0.5),
    "split": dict(ins=4, rm=4, sp=9, ap=9, get=2, rg=1.5, it=1.5, scan=3, ent=1),
    "fail":  dict(ins=12, ent=8, rm=4, sp=4, ap=2, tcl=3, get=2, scan=1, it=1),
    "cost":  dict(ins=8, rm=10, get=6, sp=3, ap=3, ent=4, clear=0.3),
    "keep":  dict(ins=8, ent=8, get=6, ap=6, sp=3, rm=2, scan=2, ext=3, fromit=0.5),
    "dup":   dict(ins=4, rm=3, tcl=8, cl=3, getm=3, scan=3, rel=2),
    "rel":   dict(ins=5, rm=4, rel=8, dbg=4, tcl=3, sp=1, ap=1, getm=2, fromit=2),
    "panic": dict(ins=8, ent=6, rm=5, get=4, sp=4, ap=5, tcl=3, cl=3, ext=3, fromit=2, rel=2, rg=2, it=2, scan=2, clear=1, drop=1),
}
SET_FOCI = {
    "mix":   dict(sins=8, srm=4, rep=3, take=3, sget=4, it=3, rg=3, sp=2, ap=2, cl=1, rel=1, dbg=1, clear=0.3, drop=0.3, ext=1, fromit=0.5, scan=1, alg=3, algo=2, pred=2),
    "iter":  dict(sins=4, srm=4, it=14, ext=1, sp=0.5, ap=0.5),
    "range": dict(sins=4, srm=4, rg=16, ext=1, sp=0.5, ap=0.5),
    "split": dict(sins=4, srm=3, take=2, sp=9, ap=9, sget=2, scan=3, rg=1, it=1),
    "fail":  dict(sins=12, rep=8, srm=3, sp=4, ap=2, scan=1),
    "keep":  dict(sins=8, rep=8, take=4, sget=6, ap=5, sp=2, srm=1, scan=2, ext=3, fromit=0.5),
    "alg":   dict(sins=3, srm=2, alg=12, algo=5, pred=6, ap=0.5, sp=0.5),
    "rel":   dict(sins=4, srm=3, rel=8, dbg=4, cl=2, fromit=2, ap=0.5, sp=0.5),
    "panic": dict(sins=8, rep=5, srm=4, take=3, sp=4, ap=5, cl=3, alg=3, algo=4, pred=3, ext=2, fromit=1, rel=1, scan=2, it=1, clear=1, drop=1),
}
ENT = ["or", "or", "orw", "ord", "am", "am", "set", "set", "rm", "rme", "gm", "im", "no"]

def subset(rng, N):
    r = rng.random()
    if r < 0.1: return []
    if r < 0.2: return list(range(1, N + 1))
    if r < 0.4:
        a = rng.randrange(1, N + 1); return list(range(a, min(N, a + rng.randrange(0, N)) + 1))
    if r < 0.55: return list(range(rng.randrange(1, 4), N + 1, rng.randrange(2, 4)))
    if r < 0.7: return rng.sample(range(1, N + 1), min(N, rng.randrange(0, 4)))
    return sorted(rng.sample(range(1, N + 1), rng.randrange(0, N + 1)))

def ord_kinds(rng, kinds="TTTTHHAAK"):
    """kinds of keys and values; large ones now and then, one of the two at a time"""
    kk, vk = rng.choice(kinds), rng.choice("TTHAZWFI")
    r = rng.random()
    if r < 0.06: vk = "L"
    elif r < 0.09: kk = "L"
    return kk, vk
def gen_ord(rng, ncases, focus="mix", sizes=(12, 12, 30, 60), setd=False, nops=(10, 40), faults=None, fill=None, kinds=None):
    """faults: None or a dict alloc/dup/panic -> probability"""
    W = (SET_FOCI if setd else ORD_FOCI)[focus]
    if faults is None:
        faults = {"fail": dict(alloc=0.7, dup=0.25, panic=0.03), "panic": dict(alloc=0.03, dup=0.05, panic=0.7),
                  "dup": dict(alloc=0.2, dup=0.4, panic=0.1), "mix": dict(alloc=0.12, dup=0.1, panic=0.05), "split": dict(alloc=0.15, dup=0, panic=0.02)}.get(focus, dict(alloc=0.03, dup=0.02, panic=0.0))
    names = sorted(W); ws = [W[o] for o in names]
    cases = []
    for _ in range(ncases):
        N = rng.choice(sizes)
        kk, vk = ord_kinds(rng, kinds or "TTTTHHAAK")
        if min(sizes) <= 12 and not kinds and rng.random() < 0.02: kk = "U"
        if kk == "U": N = 1
        if focus == "rel" and rng.random() < 0.6: vk = rng.choice("TTF")
        if kk == "K" and rng.random() < 0.7: vk = "W"
        c = ["case set %s - %d" % (kk, N)] if setd else ["case ord %s %s %d" % (kk, vk, N)]
        M = [set(), set(), set()]     # keys if all goes well
        fuzzy = False                 # a fault may have changed that
        tag = [0]
        val = lambda: rng.randrange(0, 50)
        def bulk(s, keys):
            """fill slot s with keys in some order"""
            keys = list(keys)
            r = rng.random() * (0.6 if N > 600 else 1)
            if r < 0.35: pass
            elif r < 0.55: keys.reverse()
            else: rng.shuffle(keys)
            if not keys: return
            if len(keys) > 15 and rng.random() < 0.8:
                c.append(("ext %d " % s) + (lst(keys) if setd else ",".join("%d:%d" % (k, val()) for k in keys)))
            else:
                for k in keys: c.append("sins %d %d" % (s, k) if setd else "ins %d %d %d" % (s, k, val()))
            M[s] |= set(keys)
        if fill or N > 15 or rng.random() < 0.4: bulk(0, subset(rng, N) if not fill and (N < 120 or rng.random() < 0.2) and N < 600 else sorted(rng.sample(range(1, N + 1), int(N * rng.uniform(0.93 if N > 600 else 0.5, 1.0)))))
        if focus in ("alg", "rel", "split", "keep") or rng.random() < 0.2: bulk(1, subset(rng, N))
        if setd and focus == "alg" and rng.random() < 0.5:     # one far smaller than the other, or all but one of it inside the other
            c.append("clear 0"); c.append("clear 1"); M[0] = set(); M[1] = set()
            skew = N >= 30 and rng.random() < 0.6
            bulk(0, sorted(rng.sample(range(1, N + 1), int(N * rng.uniform(0.7, 0.97)))))
            ins_, out_ = sorted(M[0]), [x for x in range(1, N + 1) if x not in M[0]]
            few = rng.sample(ins_, min(len(ins_), rng.randrange(0, 3) if skew else rng.randrange(0, len(ins_) + 1)))
            if out_ and rng.random() < 0.5: few.append(rng.choice(out_))
            if N > 1 and rng.random() < 0.4:        # two of a size, side by side: interleaved, one after the other, all but the ends the same, ...
                q = rng.random(); h = rng.randrange(1, N // 2 + 1)
                x = (list(range(1, 2 * h, 2)) if q < 0.3 else list(range(1, h + 1)) if q < 0.5 else
                     list(range(1, h + 1)) if q < 0.7 else sorted(rng.sample(range(1, N + 1), h)))
                y = ([i + 1 for i in x] if q < 0.3 else [i + h for i in x] if q < 0.5 else
                     [i + 1 for i in x] if q < 0.7 else sorted(rng.sample(range(1, N + 1), h)))
                if rng.random() < 0.2 and x: x.pop(rng.randrange(len(x)))
                c.append("clear 0"); M[0] = set(); bulk(0, x); few = y
            bulk(1, few)
            c.append("pred 1 0"); c.append("pred 0 1")
            for kd in ("dif", "int", "uni", "sym"):
                a, b = (0, 1) if rng.random() < 0.5 else (1, 0)
                if rng.random() < 0.5: c.append("alg %d %d %s %s" % (a, b, kd, steps(rng, rng.choice([len(M[a]), 3])).translate(FORWARD)))
                elif rng.random() < 0.3: c.append("algo %d %d %s 2" % (a, b, kd)); M[2] = set()
        if focus == "rel" and rng.random() < 0.7:      # same content by another route
            for k in rng.sample(range(1, N + 1), N):
                if k in M[0]: c.append("sins 2 %d" % k if setd else "ins 2 %d %d" % (k, rng.randrange(2)))
            M[2] = set(M[0])
            for k in rng.sample(range(1, N + 1), N // 2):
                if k not in M[2]:
                    c.append("sins 2 %d" % k if setd else "ins 2 %d 1" % k); c.append("srm 2 %d" % k if setd else "rm 2 %d" % k)
            if not setd:
                for k in sorted(M[0]):
                    v = rng.randrange(3)
                    c.append("ins 0 %d %d" % (k, v)); c.append("ins 2 %d %d" % (k, v if rng.random() < 0.97 else 7))
            c.append("rel 0 2")
        for _ in range(rng.randrange(*nops)):
            op = rng.choices(names, ws)[0]
            s = 0 if rng.random() < 0.7 else rng.randrange(3)
            t = rng.choice([x for x in range(3) if x != s])
            if op == "ext" and kk == "K" and (setd or vk == "W") and rng.random() < 0.6: op = "extr"
            if len(M[s]) > 25 and rng.random() < (0.25 if N > 600 else 0.1 if focus == "cost" else 0.03):    # mass removal
                ks = sorted(M[s]); r = rng.random()
                left = rng.choice([0, 0, 1, 2, 5, len(ks) // 8])
                if r < 0.3: gone = ks[left:]
                elif r < 0.5: gone = ks[:len(ks) - left][::-1]
                elif r < 0.7: gone = ks[:len(ks) - left]
                elif r < 0.85: gone = rng.sample(ks, len(ks) - left)
                else:
                    i = rng.randrange(left + 1); mid = ks[i:len(ks) - (left - i)]
                    gone = mid[::2] + mid[1::2][::-1]
                for k in gone: c.append(("srm %d %d" if setd else "rm %d %d") % (s, k)); M[s].discard(k)
                c.append("scan %d" % s)
                for _ in range(4):
                    k = rng.randrange(1, N + 1); c.append("sget %d %d p" % (s, k) if setd else "get %d %d p" % (s, k))
            def key(present=0.5):
                if M[s] and rng.random() < present: return rng.choice(sorted(M[s]))
                return rng.randrange(1, N + 1)
            burst = 1
            if op in ("ins", "rm", "sins", "srm", "take") and rng.random() < 0.25: burst = rng.randrange(2, 6 + N // 4)
            run = None
            if burst > 1:
                r = rng.random()
                if op in ("rm", "srm", "take") and M[s]:
                    ks = sorted(M[s]); i = rng.randrange(len(ks))
                    run = ks[i:i + burst] if r < 0.4 else ks[max(0, i - burst):i + 1][::-1] if r < 0.8 else rng.sample(ks, min(len(ks), burst))
                elif op in ("ins", "sins"):
                    a = rng.randrange(1, N + 1)
                    run = list(range(a, min(N, a + burst) + 1)) if r < 0.4 else list(range(a, max(0, a - burst), -1)) if r < 0.8 else [rng.randrange(1, N + 1) for _ in range(burst)]
            for k in (run or [None]):
                if k is None: k = key(0.75 if op in ("rm", "srm", "take", "rep") else 0.5)
                bad = False
                kill = None
                if op == "ins": a = "%d %d %d" % (s, k, val())
                elif op in ("sins", "rep", "srm", "take"): a = "%d %d" % (s, k)
                elif op == "rm": a = "%d %d" % (s, k)
                elif op in ("get", "sget"):
                    how = rng.choice("kpheei" if op == "get" else "kph")
                    bad = how == "i" and (k not in M[s] or fuzzy)
                    if bad and rng.random() < 0.6: how = "e"; bad = False
                    a = "%d %d %s" % (s, k, how)
                elif op == "getm": a = "%d %d %d" % (s, k, val())
                elif op == "ent":
                    how = rng.choice(ENT); a = "%d %d %s %d" % (s, k, how, val())
                elif op in ("clear", "drop", "scan", "dbg"): a = str(s)
                elif op in ("ext", "extr", "fromit"):
                    ks = [rng.randrange(1, N + 1) for _ in range(rng.randrange(0, 8))]
                    a = "%d %s" % (s, (lst(ks) if setd else ",".join("%d:%d" % (x, val()) for x in ks) or "-"))
                elif op == "rel" and rng.random() < 0.15: a = "%d %d" % (s, s)
                elif op in ("tcl", "cl", "rel", "pred", "ap"): a = "%d %d" % (s, t)
                elif op == "sp":
                    r = rng.random()
                    k = 1 if r < 0.06 else N if r < 0.1 else (max(M[s]) if M[s] else 1) if r < 0.16 else (min(M[s]) if M[s] else 1) if r < 0.2 else k
                    a = "%d %d %d" % (s, k, t)
                elif op == "alg":
                    a = "%d %d %s %s" % (s, t, rng.choice(["dif", "sym", "int", "uni"]), steps(rng, rng.choice([len(M[s]), len(M[s] | M[t]), len(M[s] & M[t])])).translate(FORWARD))
                elif op == "algo":
                    u = [x for x in range(3) if x not in (s, t)][0]; a = "%d %d %s %d" % (s, t, rng.choice(["dif", "sym", "int", "uni"]), u)
                elif op == "it":
                    kd = rng.choice("rbo") if setd else rng.choice(["r", "b", "k", "v", "m", "bm", "w", "o", "o"])
                    a = "%d %s %s" % (s, kd, steps(rng, len(M[s]), kd in "rbkv"))
                elif op == "rg":
                    kd = "r" if setd else rng.choice("rm")
                    def bound():
                        r = rng.random()
                        return "u" if r < 0.15 else ("i%d" if r < 0.6 else "e%d") % rng.choice([key(0.6), rng.randrange(0, N + 2)])
                    lo, hi = bound(), bound()
                    if lo != "u" and hi != "u" and int(lo[1:]) > int(hi[1:]) and rng.random() < 0.85: lo, hi = hi, lo
                    if rng.random() < 0.08: b = key(0.7); lo, hi = rng.choice(["i%d", "e%d"]) % b, rng.choice(["i%d", "e%d"]) % b
                    bad = lo != "u" and hi != "u" and (int(lo[1:]) > int(hi[1:]) or (lo[1:] == hi[1:] and lo[0] == hi[0] == "e"))
                    a = "%d %s %s %s %s" % (s, kd, lo, hi, steps(rng, rng.choice([len(M[s]), len(M[s]) // 2, 4]), kd == "r"))
                f = None
                r = rng.random()
                if not bad:
                    if r < faults["alloc"] and op in ("ins", "ent", "sp", "tcl", "sins", "rep"): f = rng.choice(["!sa", "!sa", "!ss", "!a 1 1", "!a 2 0"])
                    elif r < faults["alloc"] + faults["dup"] and op == "tcl": f = rng.choice(["!sc", "!c %d" % rng.randrange(1, 30)])
                    elif r < faults["alloc"] + faults["dup"] + faults["panic"]:
                        q = None
                        if op in ("clear", "drop") or (op == "it" and kd == "o") or (op == "ap" and rng.random() < 0.25): q = "d" if kk in "THAL" or (not setd and vk in "THALZ") else None
                        elif op in ("tcl", "cl", "algo"): q = "c"
                        elif op == "ent" and how in ("orw", "am") and rng.random() < 0.5: q = "g"
                        elif op in ("ext", "fromit") and rng.random() < 0.5: q = "i"
                        elif op in ("ins", "ent", "rm", "get", "getm", "sp", "ap", "ext", "fromit", "rel", "rg", "sins", "rep", "srm", "take", "sget", "alg", "algo", "pred"): q = "m"
                        if op in ("rel",) and q == "m": q = rng.choice("me")
                        if q: f = rng.choice(["!sp " + q, "!p %s %d" % (q, rng.randrange(1, 8))]) if op not in ("ap", "ext", "fromit", "sp") else "!p %s %d" % (q, rng.choice([rng.randrange(1, 8), rng.randrange(1, 2 * N)]))
                if f: c.append(f)
                c.append("%s %s" % (op, a))
                if f and f[1] not in "s" or (f and f.startswith("!sp")): fuzzy = True
                if bad: continue
                if op in ("ins", "sins", "rep"): M[s].add(k)
                elif op in ("rm", "srm", "take"): M[s].discard(k)
                elif op == "ent":
                    if how in ("or", "orw", "ord", "am", "set"): M[s].add(k)
                    elif how in ("rm", "rme"): M[s].discard(k)
                elif op in ("clear", "drop"): M[s] = set()
                elif op in ("ext", "extr"): M[s] |= set(ks)
                elif op == "fromit": M[s] = set(ks)
                elif op in ("tcl", "cl"): M[t] = set(M[s])
                elif op == "ap":
                    M[s] |= M[t]; M[t] = set()
                    if M[s] and focus in ("split", "cost", "mix", "keep") and rng.random() < 0.3: wear(c, rng, setd, s, M[s], rng.choice([max(M[s]), k]), M[s]); c.append("scan %d" % s)
                elif op == "sp":
                    M[t] = {x for x in M[s] if x >= k}; M[s] = {x for x in M[s] if x < k}
                    if focus in ("split", "cost", "mix", "keep") and rng.random() < 0.5:
                        for j in (s, t):
                            if M[j]: wear(c, rng, setd, j, M[j], k, M[j]); c.append("scan %d" % j)
                elif op == "it" and kd == "o": M[s] = set()
                elif op == "algo": M[u] = set()
        for s in range(3): c.append("scan %d" % s)
        cases.append(c)
    return cases

def cover(lines, n, rng, slack=20):
    """histories of MCTree6, chosen so that few of them meet as many structural situations as possible"""
    hs = []
    for l in lines:
        _, h, c = l.split("|")
        h = [int(x) for x in h.strip("<> ").split(",") if x.strip()]
        hs.append((h, set(c.rstrip(";").split(";"))))
    rng.shuffle(hs)
    left = set().union(*(c for _, c in hs)) if hs else set()
    out = []
    while len(out) < n and hs:
        i = max(range(len(hs)), key=lambda i: len(hs[i][1] & left) / (len(hs[i][0]) + slack))
        h, c = hs.pop(i)
        left -= c; out.append(h)
    return out

def adapt_tree(h, rng, focus, setd, sweep=False):
    """a history of MCTree6 as a case, with looks at the map in between"""
    kk = rng.choice("TTTHHA"); vk = rng.choice("TTHAZFI") if rng.random() > 0.05 else "L"
    c = ["case set %s - 300" % kk] if setd else ["case ord %s %s 300" % (kk, vk)]
    M = set(); val = lambda: rng.randrange(50)
    kv = lambda ks: lst(ks) if setd else ",".join("%d:%d" % (k, val()) for k in ks)
    plain = {"fail": 0.0, "dup": 0.4, "cost": 0.35}.get(focus, 0.5)
    def put(k):
        f = rng.random()
        if focus == "fail" and f < 0.1:
            c.append(rng.choice(["!sa", "!sa", "!ss", "!a 1 1", "!a 2 0"]))
        if setd: c.append(("rep 0 %d" if f > 0.9 else "sins 0 %d") % k)
        elif f > 0.88: c.append("ent 0 %d %s %d" % (k, rng.choice(["or", "orw", "set"]), val()))
        else: c.append("ins 0 %d %d" % (k, val()))
        if c[-2][0] == "!" and c[-2][1] == "a": c.append(("sins 0 %d" % k) if setd else "ins 0 %d %d" % (k, val()))
    def cut(k):
        f = rng.random()
        if setd: c.append(("take 0 %d" if f > 0.8 else "srm 0 %d") % k)
        elif f > 0.85: c.append("ent 0 %d %s 0" % (k, rng.choice(["rm", "rme"])))
        else: c.append("rm 0 %d" % k)
    def look(near):
        ks = sorted(M)
        near = [k for k in near] or [150]
        some = lambda: max(0, min(301, rng.choice(near) + rng.randrange(-3, 4))) if rng.random() < 0.8 else rng.randrange(0, 302)
        c.append("scan 0")
        q = {"iter": (3, 0, 1), "range": (0, 4, 0), "look": (0, 0, 6), "fail": (0, 0, 1), "cost": (0, 0, 4)}.get(focus, (1, 1, 2))
        for _ in range(q[0]): c.append("it 0 %s %s" % (rng.choice("rb") if setd else rng.choice(["r", "k", "v", "m", "w", "b"]), steps(rng, len(ks), False)))
        for _ in range(q[1]):
            a, b = sorted((some(), some()))
            if rng.random() < 0.15: a = None
            if rng.random() < 0.15: b = None
            if a is not None and a == b: b = a + 1
            c.append("rg 0 %s %s %s %s" % ("r" if setd else rng.choice("rm"), "u" if a is None else rng.choice("ie") + str(a), "u" if b is None else rng.choice("ie") + str(b),
                                        steps(rng, len([k for k in ks if (a is None or k >= a) and (b is None or k <= b)]), False)))
        for _ in range(q[2]):
            k = some()
            if setd: c.append("sget 0 %d %s" % (k, rng.choice("kph")))
            elif rng.random() < 0.3: c.append("getm 0 %d %d" % (k, val()))
            else: c.append("get 0 %d %s" % (k, rng.choice("kphe")))
        if focus == "dup" and not setd and rng.random() < 0.6:
            if rng.random() < 0.6: c.append(rng.choice(["!sa", "!sc", "!c %d" % rng.randrange(1, 60)]))
            c.append("tcl 0 2"); c.append("drop 2")
        elif focus in ("dup", "rel"): c.append("cl 0 2"); c.append("rel 0 2"); c.append("drop 2")
    i = 0
    while i < len(h):
        x = h[i]
        if 0 < x < 10000:
            j = i
            while j < len(h) and 0 < h[j] < 10000: j += 1
            run = h[i:j]
            while run:
                n = rng.randrange(20, 60)
                part, run = run[:n], run[n:]
                if len(part) > 15 and rng.random() < plain: c.append("ext 0 " + kv(part))
                else:
                    for k in part: put(k)
                M |= set(part)
                if rng.random() < 0.3: look(part)
            look(h[i:j]); i = j
        elif x < 0:
            j = i
            while j < len(h) and h[j] < 0: cut(-h[j]); M.discard(-h[j]); j += 1; rng.random() < 0.03 and look([-h[j - 1]])
            look([-y for y in h[i:j]]); i = j
        elif x < 40000:
            k = x % 10000
            if focus in ("fail", "split") and rng.random() < 0.15: c.append(rng.choice(["!sa", "!ss", "!a 1 1", "!a 0 1"])); c.append("sp 0 %d 1" % k); c.append("ap 0 1")
            c.append("sp 0 %d 1" % k)
            if rng.random() < 0.3:
                c.append("cl 1 2"); hi = [y for y in M if y >= k]
                if hi: wear(c, rng, setd, 2, hi, k)
                c += ["scan 2", "drop 2"]
            if x < 20000: M = {y for y in M if y < k}; c.append("scan 1"); c.append("drop 1")
            elif x < 30000: M = {y for y in M if y >= k}; c.append("scan 0"); c.append("drop 0"); c.append("ap 0 1")
            else: look([k]); c.append("scan 1"); c.append("ap 0 1")
            look([k]); i += 1
        else:
            n = x - 40000; ks = h[i + 1:i + 1 + n]
            c.append("ext 1 " + kv(ks)); c.append("ap 0 1"); M |= set(ks)
            look(ks); i += 1 + n
    if sweep and M and len(M) <= 140: sweep_tree(c, M, rng, focus, setd)
    elif rng.random() < 0.3: c.append("it 0 o %s" % steps(rng, len(M), setd))
    return c

def sweep_tree(c, M, rng, focus, setd):
    """the same tree (a clone has the same nodes), and every place of it"""
    ks = sorted(M); n = len(ks)
    kind = {"look": rng.choice(["rm", "ins", "get"]), "mix": rng.choice(["rm", "ins"]), "iter": "it", "range": "rg", "split": "sp", "fail": "fault", "cost": rng.choice(["rm", "ins", "sp"]), "dup": "dup", "keep": "ins"}.get(focus, "rm")
    gaps = sorted(set(range(1, 301)) - M)
    gaps = [g for g in gaps if g - 1 in M or g + 1 in M or g in (1, 300)]
    if kind == "get":
        for k in range(0, 302, 1 if n < 60 else 2): c.append("sget 0 %d %s" % (k, rng.choice("kph")) if setd else "get 0 %d %s" % (k, rng.choice("kphe")))
    elif kind == "rm":
        for k in ks if n <= 70 else rng.sample(ks, 70):
            c.append("cl 0 2"); c.append("srm 2 %d" % k if setd else "rm 2 %d" % k); c.append("scan 2")
    elif kind == "ins":
        for k in gaps if len(gaps) <= 70 else rng.sample(gaps, 70):
            c.append("cl 0 2"); c.append("sins 2 %d" % k if setd else "ins 2 %d 7" % k); c.append("scan 2")
    elif kind == "sp":
        for k in [ks[-1] + 1] + (ks if n <= 60 else rng.sample(ks, 60)):
            c.append("cl 0 2"); c.append("sp 2 %d 1" % k)
            if rng.random() < 0.5:
                wear(c, rng, setd, 2, [x for x in ks if x < k], k)
                if k <= ks[-1]: wear(c, rng, setd, 1, [x for x in ks if x >= k], k)
                if rng.random() < 0.5: c += ["scan 1", "scan 2", "drop 1"]; continue
            if rng.random() < 0.5: c.append("ap 2 1"); wear(c, rng, setd, 2, ks, rng.choice([k, ks[-1]])) if rng.random() < 0.3 else None
            else: c.append("ap 1 2")
            c.append("drop 1")
    elif kind == "it":
        for i in range(0, n + 1, 1 if n <= 40 else n // 30):
            a, b = ("F", "B") if rng.random() < 0.5 else ("B", "F")
            c.append("it 0 %s %s" % (rng.choice("rb") if setd else rng.choice("rbkvmw"), a * i + b * (n - i + 1)))
    elif kind == "rg":
        for k in [0] + ks + gaps[:: 1 if n < 60 else 5] if n <= 100 else rng.sample(ks + gaps, 90):
            for lo, hi in ((("i", k), None), (("e", k), None), (None, ("i", k)), (None, ("e", k)), (("i", k), ("i", k)), (("e", k), ("e", k + rng.randrange(1, 14)))):
                if rng.random() < 0.5: c.append("rg 0 %s %s %s %s" % ("r" if setd else rng.choice("rm"), "u" if lo is None else "%s%d" % lo, "u" if hi is None else "%s%d" % hi, rng.choice(["FFB", "BBF", "FF", "BB", "NB", "RF"])))
    elif kind == "fault":
        for k in gaps if len(gaps) <= 40 else rng.sample(gaps, 40):
            c.append("cl 0 2")
            for j in range(1, 4): c.append("!a %d 1" % j); c.append("sins 2 %d" % k if setd else "ins 2 %d 7" % k)
            c.append("scan 2")
    elif kind == "dup" and not setd:
        for j in range(1, 12): c.append("!a %d 1" % j); c.append("tcl 0 2"); c.append("drop 2")
        for j in range(1, 2 * n + 2, 1 if n < 25 else 2 * n // 40): c.append("!c %d" % j); c.append("tcl 0 2"); c.append("drop 2")

def wear(c, rng, setd, slot, ks, near, M=None):
    """take away a run of the keys next to `near`, in some order: what a cut or a join left at its edge gets used"""
    ks = sorted(ks, key=lambda x: (abs(x - near), x))[:rng.choice([4, 8, 16, 40, 80])]
    q = rng.random()
    if q < 0.25: ks.reverse()
    elif q < 0.5: rng.shuffle(ks)
    elif q < 0.6: ks.sort()
    ks = ks[:rng.choice([3, 8, 20, 60])]
    for x in ks: c.append(("srm %d %d" if setd else "rm %d %d") % (slot, x))
    if M is not None: M.difference_update(ks)
    return ks

def gen_thin(rng, ncases, setd=False):
    """trees whose nodes hold as little as they may, cut at every place: what a cut leaves must not hold more nodes than its content warrants"""
    cases = []
    for i in range(ncases):
        N = rng.randrange(25, 240)
        c = ["case set T - 300" if setd else "case ord T W 300"]
        up = i % 4 == 3
        ks = list(range(1, N + 1)) if up else list(range(N, 0, -1))
        if rng.random() < 0.5: c.append("ext 0 " + (lst(ks) if setd else ",".join("%d:1" % k for k in ks)))
        else: c += ["sins 0 %d" % k if setd else "ins 0 %d 1" % k for k in ks]
        M = set(ks)
        if up: gone = [k for k in range(4, N - 8, 7)]
        else: gone = list(range(1, 1 + rng.randrange(0, 4)))
        for k in gone: c.append("srm 0 %d" % k if setd else "rm 0 %d" % k); M.discard(k)
        ks = sorted(M)
        for k in rng.sample(ks, min(len(ks), 24)):
            c.append("cl 0 2"); c.append("sp 2 %d 1" % k)
            r = rng.random()
            if r > 0.6:        # take away around the cut, then cut there again
                lo, hi = [x for x in ks if x < k], [x for x in ks if x >= k]
                if rng.random() < 0.2: c.append("ap 2 1"); wear(c, rng, setd, 2, ks, k); c += ["scan 2", "drop 1", "drop 2"]; continue
                for part, slot in ((lo, 2), (hi, 1)):
                    wear(c, rng, setd, slot, part, k)
                    c.append("scan %d" % slot)
                if rng.random() < 0.5: c.append("sp 1 %d 2" % rng.choice(hi))
                c += ["scan 2", "drop 1", "drop 2"]; continue
            if r < 0.2: c.append("ap 2 1" if r < 0.1 else "ap 1 2"); c.append("drop 1" if r < 0.1 else "drop 2")
            else:
                if r < 0.5: c.append("scan 1")
                c.append(rng.choice(["drop 1", "clear 1", "it 1 o FB"]))
            c.append(rng.choice(["drop 2", "clear 2"]))
        cases.append(c)
    return cases

def gen_tall(rng, ncases, setd=False):
    """two big maps joined: a tree of four levels whose nodes are as full as they can be; then cut, worn down and walked"""
    cases = []
    for i in range(ncases):
        five = i % 6 == 5               # in order, one by one: half-full nodes, five levels
        N = rng.randrange(4250, 4600) if five else rng.randrange(1760, 2100)
        c = ["case set T - %d" % (N + 100) if setd else "case ord T W %d" % (N + 100)]
        ks = list(range(1, N + 1)); cut = N if five else rng.randrange(300, N - 300)
        part = [ks[:cut], ks[cut:]] if i % 2 or five else [sorted(rng.sample(ks, cut)), None]
        if part[1] is None: gone = set(part[0]); part[1] = [k for k in ks if k not in gone]
        for s in (0, 1): c.append("ext %d " % s + (lst(part[s]) if setd else ",".join("%d:1" % k for k in part[s])))
        if five: c = c[:-1]
        else: c.append("ap 0 1")
        c += ["scan 0", "it 0 b FBFBNR" if not setd else "it 0 b FBF"]
        M = set(ks)
        def at(): return rng.choice([rng.randrange(1, N + 1), 12 * rng.randrange(1, N // 12), 144 * rng.randrange(1, N // 144), 1728, N, 2])
        for _ in range(2 if five else 3):
            k = at()
            r = rng.random()
            if r < 0.5:
                c.append("sp 0 %d 1" % k); c.append("scan 1")
                lo, hi = {x for x in M if x < k}, {x for x in M if x >= k}
                for j, m in ((0, lo), (1, hi)):
                    if m: wear(c, rng, setd, j, m, k, m)
                    c.append("scan %d" % j)
                c.append("ap 0 1"); M = lo | hi
            elif M: wear(c, rng, setd, 0, M, k, M); c.append("scan 0")
            c.append("sget 0 %d p" % at() if setd else "get 0 %d e" % at())
        c.append("rg 0 r i%d e%d FBFA" % (at(), N + 1) if rng.random() < 0.5 else "rg 0 r u i%d BFBZ" % at())
        c += ["it 0 o FBBFF", "scan 0"]
        cases.append(c)
    return cases

# ---------------------------------------------------------------- hash maps
HASH_FOCI = {
    "mix":   dict(hins=10, hrm=6, hget=5, hit=3, htcl=2, hwc=1, hdbg=1, hdrop=0.4, hdef=0.3, hscan=1),
    "fail":  dict(hins=12, hrm=3, hget=2, htcl=4, hwc=3, hscan=1, hit=1, hdrop=1.5),
    "dup":   dict(hins=6, hrm=2, htcl=8, hscan=2, hit=1, hwc=0.5, hdrop=0.5),
    "room":  dict(hins=14, hwc=3, hget=1, hscan=1, hrm=0.2),
    "panic": dict(hins=10, hrm=6, hget=4, htcl=6, hscan=2, hit=1),
    "thin":  dict(hins=8, hrm=5, hget=2, hit=2, hwc=2, hscan=1, hdef=0.2, hdrop=0.2),
}
def gen_hash(rng, ncases, focus="mix", sizes=(8, 20, 60), nops=(10, 45)):
    W = HASH_FOCI[focus]
    names = sorted(W); ws = [W[o] for o in names]
    cases = []
    for _ in range(ncases):
        N = rng.choice(sizes)
        kk, vk = ord_kinds(rng, "TTTHHAAK")
        if min(sizes) <= 12 and rng.random() < 0.03: kk, N = "U", 1
        c = ["case hash %s %s %d" % (kk, vk, N)]
        if rng.random() < 0.5: c.append("!h %d" % rng.choice([1, 2, 3, 7, 16]))
        M = [set(), set(), set()]
        for _ in range(rng.randrange(*nops)):
            op = rng.choices(names, ws)[0]
            s = 0 if rng.random() < 0.65 else rng.randrange(3)
            t = rng.choice([x for x in range(3) if x != s])
            burst = 1
            if op in ("hins", "hrm") and rng.random() < 0.35: burst = rng.randrange(2, 6 + N // 2)
            if rng.random() < (0.15 if focus == "thin" else 0.03):        # filled up, then all but a few taken away again
                if focus == "thin" and rng.random() < 0.6: c.append("hwc %d %d" % (s, rng.choice([N, 28, 56]))); M[s] = set()
                ks = rng.sample(range(1, N + 1), rng.randrange(N // 2, N + 1))
                for k in ks: c.append("hins %d %d %d" % (s, k, rng.randrange(50))); M[s].add(k)
                rng.shuffle(ks)
                for k in ks[rng.choice([0, 1, 2, 5]):]: c.append("hrm %d %d %s" % (s, k, rng.choice("kp"))); M[s].discard(k)
            for _ in range(burst):
                k = rng.choice(sorted(M[s])) if M[s] and rng.random() < (0.25 if op == "hins" else 0.7) else rng.randrange(1, N + 1)
                huge = False
                if op == "hins": a = "%d %d %d" % (s, k, rng.randrange(50))
                elif op in ("hget", "hrm"): a = "%d %d %s" % (s, k, rng.choice("kp"))
                elif op == "hwc":
                    huge = rng.random() < 0.25
                    a = "%d %s" % (s, rng.choice(["max", "imax", "half", "imax1"]) if huge else rng.choice([0, 1, 3, 4, 7, 8, 14, 15, 28, 29, 57]))
                elif op == "hit": a = "%d %s %d" % (s, rng.choice("rro"), rng.choice([0, 1, len(M[s]) // 2, len(M[s]) + 2, len(M[s]) + 2]))
                elif op == "htcl": a = "%d %d" % (s, t)
                else: a = str(s)
                f = None
                r = rng.random()
                pa, pc, pp = {"mix": (0.12, 0.08, 0.05), "fail": (0.6, 0.2, 0), "dup": (0.2, 0.4, 0.1), "room": (0.1, 0, 0), "panic": (0.03, 0.05, 0.6), "thin": (0.1, 0, 0)}[focus]
                if not huge:
                    if r < pa and op in ("hins", "htcl", "hwc"): f = rng.choice(["!sa", "!ss"])
                    elif pa <= r < pa + pc and op == "htcl": f = rng.choice(["!sc", "!c %d" % rng.randrange(1, 30)])
                    elif pa + pc <= r < pa + pc + pp:
                        q = "c" if op == "htcl" and rng.random() < 0.7 else rng.choice("eh") if op in ("hins", "hget", "hrm", "htcl") else None
                        if q: f = rng.choice(["!sp " + q, "!p %s %d" % (q, rng.randrange(1, 8))])
                if f: c.append(f)
                c.append("%s %s" % (op, a))
                if op == "hins": M[s].add(k)
                elif op == "hrm": M[s].discard(k)
                elif op in ("hwc", "hdef", "hdrop") and not huge: M[s] = set()
                elif op == "hit" and a.split()[1] == "o": M[s] = set()
                elif op == "htcl": M[t] = set(M[s])
        for s in range(3): c.append("hscan %d" % s)
        cases.append(c)
    return cases

# ---------------------------------------------------------------- boxes and shared pointers
def gen_cell(rng, ncases, focus="mix", cfg="nb", nops=(8, 30)):
    cases = []
    for _ in range(ncases):
        kd = rng.choice("TTHAPLZYBWCIIGQ")
        c = ["case cell %s -" % kd]
        k = ["-"] * 4
        for _ in range(rng.randrange(*nops)):
            s = rng.randrange(4); t = rng.choice([x for x in range(4) if x != s])
            op = rng.choices(["nb", "tc", "wr", "rw", "ur", "dr", "rd"], [6, 6, 4, 3, 3, 2, 2])[0]
            f = None
            r = rng.random()
            pf = 0.7 if focus == "fail" else 0.35
            if op == "nb":
                kind = rng.choice("bbttra")
                a = "%d %s %d" % (s, kind, rng.randrange(100))
                if r < pf: f = rng.choice(["!sa", "!ss"]) if kind in "bt" or (kind == "a" and cfg.startswith("nb")) else "!a 1 0" if kd not in "ZY" else None
                k[s] = kind if f is None or f[1] == "s" else "?"
            elif op == "tc":
                a = "%d %d" % (s, t)
                if r < pf: f = rng.choice(["!sa", "!ss", "!sc"])
                elif r < pf + 0.08 and kd not in "BW": f = "!p c 1"
                k[t] = k[s]
            elif op == "wr": a = "%d %d" % (s, rng.randrange(100))
            elif op == "ur": a = "%d %s" % (s, rng.choice("bt"))
            else: a = str(s)
            if f: c.append(f)
            c.append("%s %s" % (op, a))
        for s in range(4): c.append("rd %d" % s)
        cases.append(c)
    return cases

# ---------------------------------------------------------------- bounded reads
def gen_io(rng, ncases, focus="mix", nops=(4, 14)):
    cases = []
    for _ in range(ncases):
        c = ["case io - -"]
        for _ in range(rng.randrange(*nops)):
            s = rng.randrange(2)
            op = rng.choices(["rd", "wr", "rs", "dr"], [10, 3, 2, 0.7])[0]
            f = None
            if op == "rd":
                big = rng.random() < 0.06
                n = rng.choice([1000, 4095, 4096, 5000, 8191, 8192, 8193, 10000, 16384, 20000, rng.randrange(300, 12000)] if focus == "long" else [0, 1, 2, 5, 8, 31, 32, 33, 40, 64, 65, 100, 200, rng.randrange(0, 300)])
                plan = []
                av = 0
                for _ in range(rng.randrange(0, 9)):
                    q = rng.random()
                    if q < 0.2: plan.append("1")
                    elif q < 0.26: plan.append("2")
                    elif q < 0.31: plan.append("3")
                    else:
                        m = rng.choice([1, 1, 2, 3, 7, 16, 31, 32, 33, n, max(1, n - av), n + 1, rng.randrange(1, 80)] + [rng.randrange(80, 9000), 4096, 8192] * (3 if focus == "long" else 0))
                        if m: plan.append("0%d" % m); av += m
                if rng.random() < 0.3 and n > av: plan.append("0%d" % (n - av + rng.choice([0, 0, 1, 50])))
                if rng.random() < 0.15: plan.append("2")
                # long plans are logged in chunks that keep TLC's work small
                a = "%d %s %s %d %s" % (s, rng.choice("uutti"), rng.choice(["max", "imax", "imax1", "tb"]) if big else n, rng.randrange(0, 250), ",".join(plan) or "-")
                if not big and rng.random() < (0.6 if focus == "fail" else 0.2): f = rng.choice(["!sa", "!ss", "!a 1 0"])
                elif rng.random() < 0.07: f = "!p i %d" % rng.randrange(1, 5)
            elif op == "wr":
                a = "%d %s %s" % (s, rng.choice("wwavfssp"), lst([rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 10, 40] if focus != "long" else [100, 2000, 5000]))]))
                if rng.random() < (0.6 if focus == "fail" else 0.3): f = rng.choice(["!sa", "!ss"])
            elif op == "rs": a = "%d %s" % (s, rng.choice([0, 1, 10, 40, 100, 250, "max"] + [9000] * (focus == "long")))
            else: a = str(s)
            if f: c.append(f)
            c.append("%s %s" % (op, a))
        cases.append(c)
    return cases

# ---------------------------------------------------------------- formatting
def gen_fmt(rng, ncases, focus="mix", nops=(4, 14)):
    cases = []
    for _ in range(ncases):
        c = ["case fmt - -"]
        for _ in range(rng.randrange(*nops)):
            s = rng.randrange(2)
            if rng.random() < 0.1: c.append("dr %d" % s); continue
            how = rng.choice("ppplmwedzz")
            pcs = ["".join(rng.choice("abcxyzEUX_N09") for _ in range(rng.choice([0, 1, 2, 5, 9, 30] if focus != "long" else [3, 200, 1000, 1024, 4096, 9000]))) for _ in range(rng.randrange(0, 6))]
            f = None
            r = rng.random()
            if r < 0.08: cap = rng.choice(["max", "imax1", "imax", "tb"])
            elif r < 0.16: cap = -rng.randrange(1, 6)
            else:
                cap = rng.choice([0, 0, 0, 1, 7, 64])
                if rng.random() < 0.3: f = rng.choice(["!sa", "!ss"])
            if f: c.append(f)
            c.append("fm %d %s %s %s %d" % (s, how, cap, "/".join(pcs) or "-", rng.randrange(-999, 99999)))
        cases.append(c)
    return cases

# ---------------------------------------------------------------- duplication of nested values
NUMS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
        "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}
def gen_shape(rng, ncases, focus="mix", cfg="nb", nops=(5, 14)):
    kinds = list(range(15)) + ([30, 31, 32, 30, 31, 32] if cfg.startswith("nb") else [20, 21, 22, 20, 21, 22])
    cases = []
    c = ["case num - -"]
    for ty, (lo, hi) in NUMS.items():
        for x in (lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, hi // 2 + 1, rng.randrange(lo, hi)): c.append("num %s %d" % (ty, x))
    cases.append(c + ["num bool true", "num bool false"])
    for _ in range(ncases):
        panics = focus == "panic"
        c = ["case shape %d %s" % (rng.choice(kinds), "p" if panics else "-")]
        for _ in range(rng.randrange(*nops)):
            s = rng.randrange(3); t = rng.choice([x for x in range(3) if x != s])
            op = rng.choices(["mk", "tc", "mu", "dr"], [4, 6, 3, 1])[0]
            if op == "mk":
                v = [rng.choice([0, 1, 2, 2, 1, rng.randrange(100)]) for _ in range(rng.randrange(0, 25))]
                if rng.random() < 0.1 and v: v[0] = rng.randrange(31, 90)
                a = "%d %s" % (s, lst(v))
            elif op == "tc":
                a = "%d %d" % (s, t)
                r = rng.random()
                if panics and r < 0.6: c.append(rng.choice(["!sp c", "!p c %d" % rng.randrange(1, 9)]))
                elif r < 0.55: c.append(rng.choice(["!sa", "!ss", "!sc", "!sc"]))
            elif op == "mu": a = "%d %d %d" % (s, rng.randrange(0, 8), rng.randrange(100))
            else: a = str(s)
            c.append("%s %s" % (op, a))
        cases.append(c)
    return cases


QUIET = set("get getm rm take srm sget it rg alg pred rel dbg clear drop scan hget hrm hit hdbg hscan hdrop hdef pop eq rd wr rw ur dr".split())
def without_memory(cases, rng, p=0.6):
    """the same histories, with no memory to be had during calls that need none"""
    out = []
    for c in cases:
        o = [c[0]]; dom = c[0].split()[1]
        for x in c[1:]:
            t = x.split()
            bad = dom in ("ord", "set") and (t[0] == "get" and t[3] == "i" or t[0] == "rg" and t[3][0] != "u" and t[4][0] != "u" and int(t[3][1:]) >= int(t[4][1:]))
            if t[0] in QUIET and not bad and o[-1][0] != "!" and rng.random() < p: o.append(rng.choice(["!a 1 1", "!a 1 1", "!a 1 0", "!sa"]))
            o.append(x)
        out.append(o)
    return out

def gen_lie(rng, ncases, setd=False, sizes=(6, 12, 12, 25, 40), **kw):
    """histories of ordered collections in which the order of the keys contradicts itself, from the start or from some point on"""
    cases = []
    for _ in range(ncases):
        f = rng.choice(["mix", "mix", "split", "keep"] + (["alg", "alg"] if setd else ["iter"]) + ["range"])
        c = gen_ord(rng, 1, f, sizes=sizes, setd=setd, kinds="TTHA", faults=dict(alloc=0.06, dup=0, panic=0), **kw)[0]
        out = [c[0], "!l %d 0" % rng.randrange(1 << 30)]
        p = rng.choice([1.0, 0.3, 0.1])
        for x in [y for y in c[1:] if y[:2] != "!p" and y[:3] != "!sp"]:
            if rng.random() < p:
                out.append("!l %d %s" % (rng.randrange(1 << 30), rng.choice("rrnlgevffqqq0")))
                p = rng.choice([0.3, 0.1, 0.03])
            out.append(x)
        cases.append(out)
    return cases

# ---------------------------------------------------------------- behaviours of the small exhaustive models
def adapt_cell(line, rng):
    calls = line.split("|")[1:]
    kinds = "TTHAPLZYBWCIIGQ".replace("B", "").replace("W", "") if "!p c 1" in calls or "!sc" in calls else "TTHAPLZYBWCIIGQ"
    return ["case cell %s -" % rng.choice(kinds)] + calls + ["rd %d" % s for s in range(3)]

def adapt_hash(line, rng):
    calls = line.split("|")[1:]
    N = rng.choice([3, 3, 8])
    ks = [0] + rng.sample(range(1, N + 1), 3)        # the three keys of the model among so many
    out = ["case hash %s %s %d" % (*ord_kinds(rng, "TTTHHAAK"), N)]
    if rng.random() < 0.5: out.append("!h %d" % rng.choice([1, 2]))
    for c in calls:
        w = c.split()
        if w[0] in ("hins", "hget", "hrm"): w[2] = str(ks[int(w[2])])
        out.append(" ".join(w))
    return out + ["hscan 0", "hscan 1"]

def io_plans(lines, n, rng):
    """plans and limits of MCIo, some to a case"""
    lines = lines if len(lines) <= n else rng.sample(lines, n)
    out = []
    for i in range(0, len(lines), 6):
        c = ["case io - -"]
        for l in lines[i:i + 6]:
            _, lim, plan = l.split("|")
            s = rng.randrange(2)
            if rng.random() < 0.08: c.append(rng.choice(["!sa", "!a 1 0"]))
            elif rng.random() < 0.05: c.append("!p i %d" % rng.randrange(1, 4))
            c.append("rd %d %s %s %d %s" % (s, rng.choice("uti"), lim, rng.randrange(0, 250), plan.strip(",") or "-"))
            if rng.random() < 0.2: c.append("dr %d" % s)
        out.append(c)
    return out

def forward(w): return w.translate(FORWARD)
def adapt_alg(line, rng):
    """a pair of sets of MCAlg: itself, spread out, or one of them among many more elements (which way is taken depends on the sizes)"""
    a, b = [[int(x) for x in p.strip("<> ").split(",") if x.strip()] for p in line.split("|")[1:]]
    r = rng.random()
    kk = rng.choice("TTTTHHAAK")
    N = 5 if r < 0.5 else 20 if r < 0.65 else 110
    pos = list(range(1, 6)) if N == 5 else sorted(rng.sample(range(1, N + 1), 5))
    a, b = [pos[x - 1] for x in a], [pos[x - 1] for x in b]
    if N == 110:
        rest = [x for x in range(1, N + 1) if x not in pos]
        many = rng.sample(rest, rng.choice([16 * 5 + 1, 90, len(rest)]))
        if rng.random() < 0.5: a = sorted(a + many)
        else: b = sorted(b + many)
        if rng.random() < 0.3: m = rng.sample(many, 1); (a if len(a) < len(b) else b).extend(m)
    c = ["case set %s - %d" % (kk, N)]
    for s, ks in ((0, a), (1, b)):
        if N == 5:
            ks = list(ks); rng.shuffle(ks)
            for k in ks: c.append("sins %d %d" % (s, k))
        elif ks: c.append("ext %d %s" % (s, lst(sorted(ks))))
    c += ["pred 0 1", "pred 1 0"]
    for kd in ("dif", "sym", "int", "uni"):
        for x, y in ((0, 1), (1, 0)) if N == 5 else ((0, 1),) if rng.random() < 0.5 else ((1, 0),):
            c.append("alg %d %d %s %s" % (x, y, kd, forward(steps(rng, len(set(a) | set(b))))))
            if rng.random() < 0.3: c.append("algo %d %d %s 2" % (x, y, kd))
    c.append("rel 0 1")
    return c

def adapt_ord(line, rng, setd=False):
    """a history of MCOrd: on three keys alone, or on three among so many others that the tree has two or three levels"""
    w = line.split("|")
    if (w[0] == "CASES") != setd: return None
    N = rng.choice([3, 3, 3, 14, 30, 90])
    ks = [0] + sorted(rng.sample(range(1, N + 1), 3))
    kk, vk = ord_kinds(rng)
    if kk == "K" and rng.random() < 0.7: vk = "W"
    c = ["case set %s - %d" % (kk, N)] if setd else ["case ord %s %s %d" % (kk, vk, N)]
    if N > 3:
        rest = [k for k in range(1, N + 1) if k not in ks]
        for s in range(2):
            r = rng.random()
            some = [] if r < 0.25 else sorted(rng.sample(rest, rng.randrange(len(rest) // 2, len(rest) + 1)))
            if rng.random() < 0.4: rng.shuffle(some)
            if some: c.append("ext %d %s" % (s, lst(some) if setd else ",".join("%d:%d" % (k, k % 7) for k in some)))
    for x in w[1:]:
        p = x.split()
        if p[0] in ("ins", "get", "getm", "rm", "ent", "sins", "rep", "srm", "take", "sget", "sp"): p[2] = str(ks[int(p[2])])
        elif p[0] in ("ext", "fromit") and p[2] != "-":
            p[2] = ",".join(":".join([str(ks[int(y.split(":")[0])])] + y.split(":")[1:]) for y in p[2].split(","))
        c.append(" ".join(p))
    return c + ["scan 0", "scan 1"]

def range_table(lines, n, rng, setd=False, keys=17, per=45):
    """pairs of bounds of MCRange, asked of the tree of the same shape"""
    lines = lines if len(lines) <= n else rng.sample(lines, n)
    by = {}
    for l in lines:
        _, sh, lo, hi = l.split("|"); by.setdefault(int(sh), []).append((lo, hi))
    e = lambda i: 2 * i
    orders = {1: [e(i) for i in range(1, keys + 1)], 2: [e(keys + 1 - i) for i in range(1, keys + 1)],
              3: [e(2 * i) if 2 * i <= keys else e(2 * (keys + 1 - i) - 1) for i in range(1, keys + 1)]}
    out = []
    for sh, pairs in sorted(by.items()):
        rng.shuffle(pairs)
        for j in range(0, len(pairs), per):
            kk = rng.choice("TTTTHHAAK"); N = 2 * keys + 1
            c = ["case set %s - %d" % (kk, N)] if setd else ["case ord %s %s %d" % (kk, rng.choice("TTHAFI") if kk != "K" else "W", N)]
            c.append("ext 0 " + (lst(orders[sh]) if setd else ",".join("%d:%d" % (k, k) for k in orders[sh])))
            m = rng.random() < 0.15
            for lo, hi in pairs[j:j + per]:
                inside = len([k for k in orders[sh] if (lo == "u" or k > int(lo[1:]) or lo == "i%d" % k) and (hi == "u" or k < int(hi[1:]) or hi == "i%d" % k)])
                mut = not setd and m and rng.random() < 0.5
                c.append("rg 0 %s %s %s %s" % ("m" if mut else "r", lo, hi, steps(rng, inside, not mut)))
            out.append(c)
    return out

def adapt_rel(line, rng):
    """a pair of maps of MCRel, each put together by its own route"""
    ms = [[int(x) for x in p.strip(",").split(",")] for p in line.split("|")[1:]]
    r = rng.random(); N = 3 if r < 0.6 else 40
    pos = [1, 2, 3] if N == 3 else sorted(rng.sample(range(1, N + 1), 3))
    common = [] if N == 3 else sorted(rng.sample([x for x in range(1, N + 1) if x not in pos], rng.randrange(8, N - 3)))
    kk = rng.choice("TTTTHHAAK")
    c = ["case ord %s %s %d" % (kk, rng.choice("TTTHAFI"), N)]
    for s, m in enumerate(ms):
        put = [(p, v) for p, v in zip(pos, m) if v] + [(k, k % 5) for k in common]
        if rng.random() < 0.6: rng.shuffle(put)
        for k, v in put:
            if rng.random() < 0.15: c.append("ins %d %d %d" % (s, k, 9))
        if len(put) > 4 and rng.random() < 0.7: c.append("ext %d %s" % (s, ",".join("%d:%d" % x for x in put)))
        else: c += ["ins %d %d %d" % (s, k, v) for k, v in put]
        gone = [p for p, v in zip(pos, m) if not v]
        for p in gone:
            if rng.random() < 0.5: c += ["ins %d %d 3" % (s, p), "rm %d %d" % (s, p)]
    c += ["rel 0 1", "rel 1 0"]
    if rng.random() < 0.3: c += ["dbg 0", "dbg 1"]
    return c

# ---- collections shared between threads ----
def reads(rng, kind, N, n):
    """what one of several threads asks"""
    out = []
    for _ in range(n):
        o = rng.choice("gggglfce" + ("bbrrrqqt" if kind in "MS" else ""))
        if o == "g": out.append("g%d" % rng.randint(1, N))
        elif o in "rq":
            a, b = sorted((rng.randint(1, N), rng.randint(1, N)))
            out.append("%s%d-%d" % (o, a, b))
        else: out.append(o)
    return ",".join(out)

def gen_share(rng, ncases, focus="mix", kinds="MS", sizes=(6, 12, 40, 90), nops=(4, 10)):
    cases = []
    for _ in range(ncases):
        kind, N = rng.choice(kinds), rng.choice(sizes)
        c = ["case share %s - %d" % (kind, N)]
        there = lambda: rng.choice(["", "", " @"])
        def fill(s, share):
            ks = [k for k in range(1, N + 1) if rng.random() < share]
            how = rng.choice("udr")
            if how == "d": ks.reverse()
            if how == "r": rng.shuffle(ks)
            w = rng.random()
            for k in ks: c.append("ins %d %d %d%s" % (s, k, rng.randint(0, 99), " @" if rng.random() < w / 4 else ""))
        fill(0, rng.choice([0.2, 0.6, 1]))
        if rng.random() < 0.7: fill(1, rng.choice([0.1, 0.5, 1]))
        if rng.random() < 0.2: fill(2, rng.choice([0.1, 0.5, 1]))
        hot = rng.randint(1, N)
        for _ in range(rng.randint(*nops)):
            s = 0 if rng.random() < 0.8 else rng.randint(0, 2)
            k = hot if rng.random() < 0.5 else rng.randint(1, N)
            if rng.random() < 0.3: hot = rng.randint(1, N)
            op = rng.choice(["par", "par", "par", "get", "get", "ins", "ins", "rm", "rm", "dup", "drop"] + (["sp", "ap"] if kind in "MS" else []))
            if op == "par": 
                # one collection for all, or each its own
                one = rng.random() < 0.5
                c.append("par %d %s" % (s, ";".join("%d/%s" % (s if one else rng.choice([0, 0, 1, 1, 2]), reads(rng, kind, N, rng.choice([1, 1, 2, 3, 6]))) for _ in range(rng.randint(2, 5)))))
            elif op == "ins":
                if kind == "M" and rng.random() < 0.2: c.append("!a %d 0" % rng.randint(1, 2))
                c.append("ins %d %d %d%s" % (s, k, rng.randint(0, 99), there()))
            elif op in ("rm", "get"): c.append("%s %d %d%s" % (op, s, k, there()))
            elif op == "dup": c.append("dup %d %d%s" % (s, (s + rng.randint(1, 2)) % 3, there()))
            elif op == "drop": c.append("drop %d%s" % (rng.randint(1, 2) if rng.random() < 0.7 else 0, there()))
            elif op == "sp": c.append("sp %d %d %d%s" % (s, k, (s + rng.randint(1, 2)) % 3, there()))
            elif op == "ap": c.append("ap %d %d%s" % (s, (s + rng.randint(1, 2)) % 3, there()))
            # what was known before may no longer be so
            if op in ("ins", "rm", "sp", "ap") and rng.random() < 0.7:
                c.append("get %d %d%s" % (s, k, there()))
        cases.append(c)
    return cases

def adapt_share(line, rng, kinds="MS"):
    """a content of MCShare and the walks that went on together; a key stands for a row of keys"""
    p = line.split("|")
    m = [int(x) for x in p[0].split(",")[1:]]
    kind, w = rng.choice(kinds), rng.choice([1, 1, 4, 12, 40])
    N = w * len(m)
    c = ["case share %s - %d" % (kind, N)]
    ks = [(j * w + i + 1, v) for j, v in enumerate(m) if v for i in range(w)]
    if rng.random() < 0.5: rng.shuffle(ks)
    c += ["ins 0 %d %d" % x for x in ks]
    prg = []
    for d in p[1:]:
        lo, hi = [int(x) for x in d[1:].split("-")]
        r = "%s%d-%d" % ("r" if d[0] == "f" else "q", (lo - 1) * w + 1, hi * w) if kind != "H" else "f"
        prg.append(",".join([r] * rng.randint(1, 3) + (["f" if d[0] == "f" else "b"] if kind != "H" else [])))
    prg = ["0/" + x for x in prg]
    c.append("par 0 " + ";".join(prg))
    c.append("par 0 " + ";".join(prg + ["%d/%s" % (rng.choice([0, 1]), reads(rng, kind, N, 3))]))
    return c

OWNS1, OWNS2 = ["plain", "vec", "box", "veciter", "vecwalk", "vecwalkm", "vecown"], ["hash"]
MAP1 = ["set", "setiter", "setown", "setrange", "setdif", "setsym", "setint", "setuni"]
MAP2 = ["map", "iter", "iterm", "own", "keys", "values", "valuesm", "range", "rangem", "entry", "vacant", "occupied"]
def gen_marks(cfg):
    """every type of the crate over every kind of caller's type"""
    c = ["case mark - -"]
    for k in "bsyn":
        for x in OWNS1 + (MAP1 if cfg.startswith("nb") else []): c.append("mark %s %s b" % (x, k))
        for v in "bsyn":
            for x in (MAP2 if cfg.startswith("nb") else OWNS2): c.append("mark %s %s %s" % (x, k, v))
    return [c]
