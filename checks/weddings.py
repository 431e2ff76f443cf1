"""W01 the layered hash store, W02 lookup trees, W03 serialised chunks and the small top store, W04 forests."""
import concurrent.futures
from lib.vf import run_scenarios

FILL = 1000000


def family(rng, n, style):
    """Hashes that share most of their bytes, so that they meet again at every level of a tree."""
    base = bytearray(rng.randbytes(32))
    out = []
    if style == "lone": base[0], base[1] = 251, rng.randrange(256)
    while len(out) < n:
        b = bytearray(base)
        if style == "chain":       # each differs from the base in a byte of its own: one level per hash
            b[(len(out) * 5 + 3) % 32] ^= 1 + rng.randrange(255)
        elif style == "tail":      # differ in the last byte only
            b[31] = len(out)
        elif style == "lead":      # differ in the leading bytes only
            b[rng.randrange(3)] ^= 1 + rng.randrange(255)
        elif style == "lone":      # first bytes no other hash has
            b = bytearray(rng.randbytes(32)); b[0] = 251 + len(out) % 5; b[1] = rng.randrange(256)
        else:
            b = bytearray(rng.choice([bytes(32), b"\xff" * 32, rng.randbytes(32)])); b[rng.randrange(32)] = rng.randrange(256)
        if b.hex() not in out: out.append(b.hex())
    return out


STYLES = ("chain", "tail", "lead", "lone", "extremes")
# (donut forests per tier, bakes): how soon each lower tier is reached
TIERS = ((None, 2), ([2, 2, 255, 255], 4), ([1, 3, 255, 255], 2), ([1, 255, 255, 255], 3), ([1, 1, 255, 255], 1), ([1, 2, 255, 255], 3))


def W01(c):
    c.model_check("CakeTiersMC.tla", "CakeTiersMC.cfg" if c.quick else "CakeTiersMC2.cfg", timeout=900, workers=4, coverage=False)
    scen = []
    for k in range(6 if c.quick else 24):
        maxf, bakes = TIERS[k % len(TIERS)]
        if not c.quick and k == 5: maxf, bakes = [1, 1, 255, 255], 2
        style = STYLES[k % len(STYLES)]
        n = 14 if style == "chain" else 9
        near = [[FILL + c.rng.randrange(65535 * bakes)] + c.rng.sample(range(32), c.rng.choice((1, 1, 2, 4))) for _ in range(40)]
        near += [[FILL + i] + list(range(31, 31 - c.rng.randrange(1, 12), -1)) for i in range(10)]
        env = {"GEN_DEPTH": 12, "GEN_U": n + len(near), "GEN_N": n, "GEN_FAM": int(style == "chain"), "GEN_DUP": k % 2, "GEN_BAKES": bakes}
        for ops in c.generate("CakeGen.tla", "gen.cfg", 1, 12, env=env, seed_off=k):
            cfg = {"seed": c.rng.randrange(1 << 30), "reass": c.rng.choice((0, 1, 2, 3, 30)), "named": family(c.rng, n, style), "near": near,
                   "lead": [251] if style == "lone" else []}
            if maxf: cfg["maxf"] = maxf
            scen.append({"cfg": cfg, "ops": ops})
    traces = run_scenarios(c, "cakedrv", scen, label="layered hash store", parallel=8, timeout=600)
    c.extra["bakes"] = sum(e.get("op") == "fill" for t in traces for e in t)
    c.sample([e for e in traces[0] if e["op"] != "q"][:8])
    c.validate("CakeTrace.tla", "trace.cfg", traces, "layered hash store", chunk=1)


# ---- W02 and W03: trees and chunks
def hx(h): return bytes(h).hex()


def tree_family(rng, style, L, P):
    """A list of distinct hashes of L bytes (the first P the same), chosen to give trees of one kind of shape."""
    pre = [rng.randrange(256) for _ in range(P)]
    S, free = set(), list(range(P, L))
    base = [rng.choice((0, 255, rng.randrange(256))) for _ in range(L)]
    base[:P] = pre
    if style == "chain":           # each differs from the base in a byte of its own: one level per byte
        S.add(tuple(base))
        for b in free:
            h = list(base); h[b] ^= 1 + rng.randrange(255); S.add(tuple(h))
    elif style == "fan":           # one byte tells all apart
        b = rng.choice(free)
        for v in rng.sample(range(256), rng.choice((2, 5, 6, 7, 100, 244, 245, 255, 256))):
            h = list(base); h[b] = v; S.add(tuple(h))
    elif style == "fans":          # below one byte, fans of many different widths
        b, *rest = rng.sample(free, min(len(free), 4))
        for v, k in zip(rng.sample(range(256), 14), rng.sample((1, 2, 3, 4, 5, 6, 7, 8, 9, 30, 60, 61, 120, 130), 14)):
            d = rng.choice(rest)
            for x in rng.sample(range(256), k):
                h = list(base); h[b], h[d] = v, x; S.add(tuple(h))
    elif style == "grid":          # few values in every byte
        vals = rng.sample(range(256), rng.choice((2, 3, 4)))
        for _ in range(rng.choice((20, 60, 120))):
            S.add(tuple(pre + [rng.choice(vals) for _ in free]))
    elif style == "tail":          # differ in the last bytes only
        for _ in range(rng.choice((2, 9, 40))):
            h = list(base); h[L - 1] = rng.randrange(256)
            if len(free) > 1: h[L - 2] = rng.randrange(3)
            S.add(tuple(h))
    elif style == "few":
        for _ in range(rng.choice((0, 1, 1, 2))): S.add(tuple(pre + [rng.randrange(256) for _ in free]))
    else:                          # anything
        for _ in range(rng.choice((5, 50, 200))): S.add(tuple(pre + [rng.randrange(256) for _ in free]))
    S = sorted(S); rng.shuffle(S)
    return S


TSTYLES = ("chain", "fan", "fans", "grid", "tail", "few", "any")


def questions(rng, S, L, P, k):
    """Members, and others that differ from a member in one byte, in all but a few bytes, or in everything."""
    q = [list(h) for h in (S if len(S) <= k else rng.sample(S, k))]
    for h in rng.sample(S, min(len(S), k)):
        for _ in range(2):
            g = list(h)
            for b in rng.sample(range(P, L), rng.choice((1, 1, 2, max(1, L - P - 1), L - P)) if L - P > 1 else 1):
                g[b] = rng.choice((0, 255, (g[b] + 1) % 256, (g[b] + 128) % 256, rng.randrange(256)))
            q.append(g)
    for _ in range(6):
        a, b = (rng.choice(S), rng.choice(S)) if S else ([0] * L, [1] * L)
        g = [rng.choice((x, y)) for x, y in zip(a, b)]
        q.append(g)
    q += [[0] * P + [0] * (L - P), [255] * L]
    rng.shuffle(q)
    return [hx(h) for h in q]


def batches(op, hs, n=20, **kw): return [dict(op=op, hs=hs[k:k + n], **kw) for k in range(0, len(hs), n)]


def subsets(rng, alphabet, L, frac):
    """Every set of hashes over a small alphabet (or a seeded fraction of them)."""
    import itertools
    allh = list(itertools.product(alphabet, repeat=L))
    out = []
    for m in range(1 << len(allh)):
        if frac < 1 and rng.random() > frac: continue
        S = [h for k, h in enumerate(allh) if m >> k & 1]
        rng.shuffle(S)
        out.append((S, allh))
    return out


def small_scope(c, both, frac):
    """Every small tree: generated in full from all sets over {3 values}^2 and {2 values}^3."""
    scen = []
    for alphabet, L in (((0, 127, 255), 2), ((0, 255), 3), ((1, 200), 3)):
        sets = subsets(c.rng, alphabet, L, frac)
        for k in range(0, len(sets), 64):
            ops = []
            for S, allh in sets[k:k + 64]:
                for kind in both:
                    R = c.rng.randrange(L + 1)
                    P = c.rng.choice((0, 1)) if kind == "single" else 0
                    T, A, LL = S, allh, L
                    if P: T, A, LL = [(9,) + tuple(h) for h in S], [(9,) + tuple(h) for h in allh], L + 1
                    first = c.rng.choice((0, 1, 65536, 1000000))
                    pis = [first + 1 + x for x in range(len(T))]
                    if kind == "shallow": pis = [first + x for x in range(len(T))]
                    ops.append({"op": "gen", "kind": kind, "len": LL, "prefix": P, "reass": R, "hashes": [hx(h) for h in T], "pis": pis})
                    ops += batches("find", [hx(h) for h in A], 30)
            scen.append({"cfg": {"hi": 0}, "ops": ops})
    return scen


def W02(c):
    for cfg in ("ByteTreeMC.cfg", "ByteTreeMC2.cfg", "ByteTreeMC3.cfg") + (() if c.quick else ("ByteTreeMC4.cfg",)):
        c.model_check("ByteTreeMC.tla", cfg, timeout=900, workers=4, coverage=False)
    scen = small_scope(c, ("shallow", "single"), 0.25 if c.quick else 1)
    n = 56 if c.quick else 420
    for k in range(n):
        style = TSTYLES[k % len(TSTYLES)]
        kind = ("shallow", "single")[k // len(TSTYLES) % 2]
        L = c.rng.choice((1, 2, 3, 4, 8, 20, 31, 32, 33, 63, 64)) if style != "fans" else c.rng.choice((6, 20, 32))
        if k < 4: L, style = 64, ("chain", "chain", "any", "fan")[k]
        P = c.rng.choice((0, 0, 1, 2, 3, L - 1)) if kind == "single" else 0
        P = min(P, L - 1)
        S = tree_family(c.rng, style, L, P) if not (style == "fans" and L - P < 3) else tree_family(c.rng, "any", L, P)
        hi = c.rng.choice((0, 0, 3, 1 << 20))
        first = c.rng.choice((0, 1, 250, 65535, 10 ** 9))
        pis = c.rng.sample(range(first + 1, first + 1 + 3 * len(S) + 1), len(S))
        R = c.rng.choice((0, 1, 2, 3, L // 2, L))
        ops = [{"op": "gen", "kind": kind, "len": L, "prefix": P, "reass": min(R, L), "hashes": [hx(h) for h in S], "pis": pis}]
        ops += batches("find", questions(c.rng, S, L, P, 60))
        scen.append({"cfg": {"hi": hi}, "ops": ops})
    for kind, L, m, P in (("shallow", 32, 65535, 0), ("single", 32, 70000, 1), ("shallow", 3, 30000, 0), ("single", 20, 3000, 2)) + (() if c.quick else (("single", 32, 300000, 0), ("shallow", 64, 200000, 0))):
        scen.append({"cfg": {"hi": 0}, "ops": [{"op": "big", "kind": kind, "len": L, "n": m, "prefix": P, "reass": c.rng.randrange(4), "via": "tree", "seed": c.rng.randrange(1 << 30), "first": 1 + c.rng.randrange(1000)}]})
    traces = run_scenarios(c, "treedrv", scen, label="trees of hashes", parallel=8, timeout=600)
    c.sample([e for e in traces[-10] if e["op"] == "gen"][:1])
    c.extra["trees"] = sum(e.get("op") == "tree" for t in traces for e in t)
    c.extra["lookups"] = sum(len(e["hs"]) for t in traces for e in t if e.get("op") == "find")
    c.validate("TreeTrace.tla", "trace.cfg", traces, "trees of hashes", chunk=6)


def W03(c):
    c.model_check("LayoutMC.tla", "LayoutMC.cfg" if c.quick else "LayoutMC2.cfg", timeout=900, workers=4, coverage=False)
    scen = []
    for k in range(42 if c.quick else 300):
        hi = c.rng.choice((0, 0, 5, 1 << 20))
        L = c.rng.choice((1, 2, 3, 8, 20, 32, 33, 64))
        R = min(L, c.rng.choice((0, 1, 2, 3, L)))
        W, H, specs = c.rng.choice((2, 3, 4)), c.rng.choice((2, 3, 4)), c.rng.choice((5, 5, 6, 10, 255))
        ops, qs, first = [], [], c.rng.choice((0, 1, 250, 65535, 10 ** 9))
        for j in range(c.rng.choice((1, 2, 3))):
            style = TSTYLES[(k + j) % len(TSTYLES)]
            if style == "fans" and L < 3: style = "any"
            if k == 0: L, style, R = 64, "chain", 2
            S = tree_family(c.rng, style, L, 0)
            pis = sorted(c.rng.sample(range(first, first + len(S) + 2), len(S)))
            ops.append({"op": "gen", "kind": "shallow", "len": L, "prefix": 0, "reass": R, "hashes": [hx(h) for h in S], "pis": pis, "only": True})
            ops.append({"op": "chunk", "W": W, "H": H, "specs": specs})
            q = questions(c.rng, S, L, 0, 40)
            qs.append(q)
            ops += batches("cfind", q, c=j + 1)
            first += len(S) + 5
        ops += [{"op": "files"}, {"op": "read"}]
        for j, q in enumerate(qs): ops += batches("cfind", q, c=j + 1, file=1)
        if k % 5 == 0: ops.append({"op": "read"}); ops += batches("cfind", qs[0], c=1, file=1)
        scen.append({"cfg": {"hi": hi}, "ops": ops})
    for L, m, W, H, via in ((32, 65535, 2, 2, "file"), (20, 65535, 2, 2, "chunk"), (3, 40000, 3, 3, "file"), (64, 5000, 4, 3, "chunk")) + (() if c.quick else ((32, 400000, 3, 3, "file"),)):
        scen.append({"cfg": {"hi": 0}, "ops": [{"op": "big", "kind": "shallow", "len": L, "n": m, "prefix": 0, "reass": c.rng.randrange(4), "via": via, "W": W, "H": H,
                                                 "specs": c.rng.choice((5, 10)), "seed": c.rng.randrange(1 << 30), "first": c.rng.randrange(1000)}]})
    # as many formats in one level as there can be
    for m, specs, via in ((20000, 255, "file"), (32000, 255, "file"), (20000, 130, "chunk")):
        scen.append({"cfg": {"hi": 0}, "ops": [{"op": "big", "kind": "shallow", "shape": "widths", "len": 32, "n": m, "prefix": 0, "reass": 1, "via": via, "W": 2, "H": 2,
                                                 "specs": specs, "seed": c.rng.randrange(1 << 30), "first": c.rng.randrange(1000)}]})
    for k in range(8 if c.quick else 60):
        ops, n = [{"op": "znew"}, {"op": "zcount"}, {"op": "zfind", "x": 1}, {"op": "zget", "i": 0}], 0
        ro = False
        for _ in range(50):
            x = c.rng.random()
            if x < .35 and not ro and n < 60: n += 1; ops.append({"op": "zapp", "x": n})
            elif x < .55: ops.append({"op": "zfind", "x": c.rng.randint(1, n + 2)})
            elif x < .75: ops.append({"op": "zget", "i": c.rng.choice((-1, 0, n - 1, n, n + 1, c.rng.randint(0, n)))})
            elif x < .82: ops.append({"op": "zcount"})
            elif x < .88 and not ro: ops.append({"op": "zsync"})
            elif x >= .88: ro = c.rng.random() < .3; ops.append({"op": "zreopen", "ro": int(ro)})
        scen.append({"cfg": {"hi": 0}, "ops": ops})
    traces = run_scenarios(c, "treedrv", scen, label="chunks of bytes", parallel=8, timeout=600)
    c.extra["chunks"] = sum(e.get("op") == "chunk" for t in traces for e in t)
    c.extra["lookups"] = sum(len(e["hs"]) for t in traces for e in t if e.get("op") == "cfind")
    c.sample([e for e in traces[-1]][:12])
    c.validate("TreeTrace.tla", "trace.cfg", traces, "chunks of bytes", chunk=6)


# ---- W04: forests
def forest_family(rng, n, style):
    """n distinct hashes of 32 bytes which give trees of one kind of shape under many, few or one prefix."""
    base = bytearray(rng.randbytes(32))
    out, seen = [], set()
    lead = {"one": [(base[0], base[1])], "two": [(base[0], base[1]), (base[0], base[1] ^ 1), (base[0] ^ 0x80, base[1])],
            "swap": [(1, 2), (2, 1), (0, 1), (1, 0), (0, 0), (255, 0), (0, 255), (255, 255)]}.get(style)
    while len(out) < n:
        b = bytearray(base)
        if lead: b[0], b[1] = rng.choice(lead)
        if style == "full":                    # one node with nearly all children
            if len(out) < 256: b[2] = len(out)
            else: b[2], b[7] = rng.randrange(256), rng.randrange(256)
        elif style == "wide":                  # few nodes with many children
            b[rng.choice((2, 2, 2, 7))] = rng.randrange(256)
        elif style == "steps":                 # nodes with ever more children: all kinds of nodes side by side
            g = 0
            while len(out) >= sum(2 + (k * k) // 4 for k in range(g + 1)): g += 1
            b[0] ^= len(out) % 2                # ... under two prefixes
            b[2], b[4 + g] = 3 * g, rng.randrange(256)
        elif style == "ladder":                # ... and every byte examined
            if out: b[(len(out) - 1) % 32] ^= 1 + rng.randrange(255)
        elif style == "chain":                 # one level per hash
            b[2 + (len(out) * 5) % 30] ^= 1 + rng.randrange(255)
        elif style == "spread":                # different everywhere
            b = bytearray(rng.randbytes(32))
        elif style == "zeros":                 # mostly zeros: bytes that look like padding and like "nothing there"
            b = bytearray(32)
            for _ in range(rng.choice((1, 1, 2, 3))): b[rng.randrange(32)] = rng.choice((0, 1, 0x55, 0xAA, 255))
        else:
            for _ in range(rng.choice((1, 2, 2, 3))): b[rng.randrange(2, 32)] = rng.choice((0, 1, 2, 255, rng.randrange(256)))
        if bytes(b) not in seen: seen.add(bytes(b)); out.append(bytes(b).hex())
    return out


FORESTS = ("one", "two", "swap", "wide", "chain", "spread", "zeros")


def W04(c):
    c.model_check("CakeTiersMC.tla", "CakeTiersMC.cfg" if c.quick else "CakeTiersMC2.cfg", timeout=900, workers=4, coverage=False)
    c.model_check("LayoutMC.tla", "LayoutMC.cfg" if c.quick else "LayoutMC2.cfg", timeout=900, workers=4, coverage=False)
    c.model_check("ForestMC.tla", "ForestMC.cfg" if c.quick else "ForestMC2.cfg", timeout=900, workers=4, coverage=False)
    scen = []
    per = 2 if c.quick else 8
    #        dest, quotas, bakes, most hashes in a bake, universe, scenarios of each family
    plans = [(0, (3, 2, 255, 255), 7, 14, 60, per), (0, (255, 255, 255, 255), 4, 9, 30, 1), (0, (2, 255, 255, 255), 5, 30, 100, per),
             (1, (255, 2, 255, 255), 3, 14, 40, 1), (1, (255, 255, 255, 255), 3, 14, 40, per), (0, (1, 2, 255, 255), 4, 6, 24, 1),
             (2, (255, 255, 255, 255), 2, 9, 20, 1)]
    jobs = []
    for dest, quota, bakes, most, u, n in plans:
        jobs += [(n * len(FORESTS), u, bakes, most, dup, [(f, dest, quota) for f in FORESTS]) for dup in (0, 1)]
    # all kinds of nodes: hundreds of hashes in a bake
    none, two = (255, 255, 255, 255), (2, 255, 255, 255)
    for most, style in ((312, "full"), (200, "wide"), (128, "steps")):
        jobs.append((3 if c.quick else 12, 320, 2, most, 0, [(style, 0, none), (style, 1, none), (style, 0, two), (style, 1, two)]))
    # ... and baked again into the tier below
    one = (1, 255, 255, 255)
    for most, style in ((312, "full"), (200, "wide"), (128, "steps")):
        jobs.append((3 if c.quick else 8, 320, 3, most, 0, [(style, 0, one), (style, 0, (1, 1, 255, 255))]))
    jobs.append((3 if c.quick else 9, 33, 1, 33, 0, [("ladder", 0, none), ("ladder", 1, none), ("ladder", 2, none)]))
    jobs.append((2 if c.quick else 8, 33, 2, 17, 0, [("ladder", 0, two), ("ladder", 0, (1, 2, 255, 255))]))
    jobs.append((4 if c.quick else 16, 320, 2, 250, 1, [("steps", 0, none), ("steps", 1, none)]))

    def gen(j):
        n, u, bakes, most, dup, _ = jobs[j]
        return c.generate("ForestGen.tla", "gen.cfg", n, 60, seed_off=j, env={"GEN_DEPTH": bakes, "GEN_U": u, "GEN_DUP": dup, "GEN_MOST": most})
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex: behs = list(ex.map(gen, range(len(jobs))))
    for (n, u, bakes, most, dup, kinds), bs in zip(jobs, behs):
        for k, ops in enumerate(bs):
            style, dest, quota = kinds[k % len(kinds)]
            scen.append(forest_scenario(c.rng, style, dest, quota, u, ops))
    traces = run_scenarios(c, "forestdrv", scen, label="forests", parallel=8, timeout=600)
    c.extra["bakes"] = sum(e.get("op") == "bake" for t in traces for e in t)
    c.extra["cascades"] = sum(e.get("op") == "disk" and e["there"] and e["tier"] > t[0]["dest"] for t in traces for e in t)
    c.sample([e for e in traces[0] if e["op"] in ("new", "bake")][:4])
    c.validate("ForestTrace.tla", "trace.cfg", traces, "forests", chunk=6)


def forest_scenario(rng, style, dest, quota, u, ops):
    named = forest_family(rng, u, style)
    used = sorted({x for o in ops if o["op"] == "bake" for x in o["ids"]})
    ask = [named[x - 1] for x in used]
    # never presented: near misses of some, and any
    for h in rng.sample(ask, min(8, len(ask))):
        b = bytearray(bytes.fromhex(h)); b[rng.randrange(32)] ^= 1 + rng.randrange(255); ask.append(bytes(b).hex())
        b = bytearray(bytes.fromhex(h)); b[31] ^= 1; ask.append(bytes(b).hex())
    ask += [rng.randbytes(32).hex(), "00" * 32, "ff" * 32]
    out = []
    for o in ops:
        if o["op"] == "bake": out.append({"op": "bake", "hs": [named[x - 1] for x in o["ids"]]})
        elif o["op"] == "find": out += [{"op": "find", "hs": ask[k:k + 60]} for k in range(0, len(ask), 60)]
        else: out.append(o)
    W = [rng.choice((2, 2, 3, 4, 5)) for _ in range(4)] if rng.random() < 0.5 else [2, 3, 4, 5]
    H = [rng.choice((2, 3, 4, 5)) for _ in range(4)] if rng.random() < 0.5 else [2, 3, 4, 5]
    return {"cfg": {"dest": dest, "quota": quota, "W": W, "H": H, "R": [rng.choice((0, 1, 2, 3, 8, 30))] * 4,
                    "groups": [rng.choice((5, 6, 7, 10, 200))] * 4, "lo": rng.choice((0, 0, 1, 65535, 1 << 24)), "hi": rng.choice((0, 0, 1, 300))}, "ops": out}


def bake_faults(rng):
    """Which operation of a bake fails: the k-th of a kind on some of the files of a tier; all in turn."""
    al = []
    for t in ("Tier0", "Tier1", "Tier1", "Tier2"):
        for f, ks in (("Hashes", (1, 1, 2, 3, 5)), ("DonutForestsInfo", range(1, 9)), ("Level", (1, 2, 3, 4, 5, 6, 8, 10, 15, 20, 30)), ("DonutForestsJump", (1, 2, 3, 256))):
            al += [("write", f"{t}/{f}", k) for k in ks] + [("open", f"{t}/{f}", 1), ("open", f"{t}/{f}", 2), ("read", f"{t}/{f}", rng.randint(1, 2))]
        al += [("read", f"{t}/Hashes", k) for k in range(1, 8)] + [("mkdir", t, 1)]
    al += [("write", "", k) for k in range(1, 40, 3)] + [("open", "", k) for k in range(1, 20)] + [("read", "", k) for k in range(1, 12)]
    while True:
        rng.shuffle(al)
        yield from al


def W05(c):
    c.faults = True
    c.model_check("CakeTiersMC.tla", "CakeTiersMC.cfg", timeout=900, workers=4, coverage=False)
    n = 14 if c.quick else 80
    none, two, one = (255, 255, 255, 255), (2, 255, 255, 255), (1, 255, 255, 255)
    #        how many, universe, bakes, most hashes in a bake, repeated ones, (family, first tier, quotas)
    jobs = [(n, 40, 3, 14, 0, [(f, d, q) for f in ("one", "swap", "spread", "zeros") for d, q in ((0, two), (0, one), (0, (1, 2, 255, 255)))]),
            (n, 40, 3, 14, 1, [(f, d, q) for f in ("wide", "spread", "chain") for d, q in ((0, two), (0, one), (1, none))]),
            (n // 3, 100, 4, 30, 0, [(f, 0, two) for f in ("wide", "spread", "two")])]

    def gen(j):
        k, u, bakes, most, dup, kinds = jobs[j]
        return c.generate("ForestGen.tla", "gen.cfg", k * len(kinds), 60, seed_off=60 + j,
                          env={"GEN_DEPTH": bakes, "GEN_U": u, "GEN_DUP": dup, "GEN_MOST": most, "GEN_FULL": 1})
    with concurrent.futures.ThreadPoolExecutor(max_workers=3) as ex: behs = list(ex.map(gen, range(len(jobs))))
    scen = [forest_scenario(c.rng, *kinds[k % len(kinds)], u, ops) for (_, u, _, _, _, kinds), bs in zip(jobs, behs) for k, ops in enumerate(bs)]
    which = bake_faults(c.rng)
    for sc in scen:
        for o in sc["ops"]:
            if o["op"] == "fault": o["kind"], o["in"], o["k"] = next(which)
    traces = run_scenarios(c, "forestdrv", scen, label="forests on a full disk", parallel=8, timeout=600)
    ends = [(e["op"], "panic" if e["err"].startswith("panic") else "error" if e["err"] else "done")
            for t in traces for p, e in zip(t, t[1:]) if p["op"] == "limit"]
    c.extra["limited"] = {f"{a} {b}": ends.count((a, b)) for a, b in sorted(set(ends))}
    c.validate("ForestTrace.tla", "trace.cfg", traces, "forests on a full disk", chunk=10)

    # the layered store itself: one append bakes the top tier
    def tries(k):
        maxf, bakes = ((None, 1), (None, 1), ([1, 255, 255, 255], 2), (None, 2))[0 if c.quick else k % 4]
        n = 65535 * bakes
        first, late = FILL, FILL + n + 1000
        ops = [{"op": "new"}, {"op": "fill", "id": first, "n": n - 3}, {"op": "save"}]
        for _ in range(4 if c.quick else 12):
            kind, where, at = next(top)
            f = {"op": "limit", "kind": kind, "in": where, "k": at, "part": c.rng.choice((0, 0, 1, 100)), "ever": c.rng.randrange(2)}
            if kind == "full": f = {"op": "limit", "bytes": at, "files": -1}
            if kind == "files": f = {"op": "limit", "bytes": -1, "files": at}
            ids = list(range(late, late + 8))
            q = {"op": "q", "finds": [[late, 12, 1], [first + c.rng.randrange(9000), 40, n // 41 - 250], [first + n - 20, 30, 1]],
                 "gets": [[n - 5, 12, 1], [c.rng.randrange(9000), 40, n // 41 - 250]]}
            ops += [{"op": "again"}, f, {"op": "app", "ids": ids}, {"op": "lift"}, q, {"op": "reopen"}, q, {"op": "limit", **next(opens)}, {"op": "reopen"}, {"op": "lift"}, q]
        return {"cfg": {"seed": c.rng.randrange(1 << 30), "reass": c.rng.choice((0, 2, 3)), "named": [], "near": [], **({"maxf": maxf} if maxf else {})}, "ops": ops}
    top, opens = top_faults(c.rng), open_faults(c.rng)
    scen = [tries(k) for k in range(8 if c.quick else 24)]
    traces = run_scenarios(c, "cakedrv", scen, label="layered hash store on a failing disk", parallel=8, timeout=900)
    c.extra["layered"] = {"failed appends": sum(e.get("failed", False) for t in traces for e in t),
                          "failed opens": sum(e["op"] == "reopen" and e["err"] != "" for t in traces for e in t),
                          "tries": sum(e["op"] == "again" for t in traces for e in t)}
    c.validate("CakeTrace.tla", "trace.cfg", traces, "layered hash store on a failing disk", chunk=1)


def top_faults(rng):
    """Which operation of an append that bakes the top tier fails."""
    al = [("write", f"TierTop/{f}", k) for f in ("", "Hashes") for k in (1, 2, 3)] + [("read", "TierTop", k) for k in (1, 2)]
    al += [("write", f"Tier0/{f}", k) for f in ("Hashes", "DonutForestsInfo", "Level", "DonutForestsJump") for k in (1, 1, 2, 3, 6)]
    al += [("write", "Tier0/Hashes", k) for k in (1, 2, 3, 30)] + [("write", "Tier1", k) for k in (1, 5, 50)] + [("write", "", k) for k in range(1, 20, 4)]
    al += [("open", "", k) for k in range(1, 14)] + [("sync", "", 1), ("mkdir", "", 1), ("mkdir", "", 2), ("read", "Tier0", 1)]
    al += [("full", "", k) for k in (0, 10000, 1000000, 1900000, 2097000)] + [("files", "", k) for k in (8, 11, 14, 20)]
    while True:
        rng.shuffle(al)
        yield from al


def open_faults(rng):
    while True: yield {"kind": rng.choice(("open", "read", "read")), "in": "", "k": rng.randint(1, 14), "part": 0, "ever": rng.randrange(2)}
