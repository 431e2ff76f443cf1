"""H01 hash stores appended to, H02 pre-built bin index, H03 uniform pre-built index."""
from lib.vf import run_scenarios

M64 = (1 << 64) - 1


def hx(low, tail):
    """A 32-byte hash: the 64 least significant bits come first, little endian."""
    return (low & M64).to_bytes(8, "little").hex() + bytes(tail).hex()


def tails(rng, k):
    return [rng.randbytes(24) for _ in range(k)]


def universe(rng, n, style, bits=4):
    """n different hashes built to collide in the ways that matter to an index."""
    out, mask = [], (1 << bits) - 1
    t0 = rng.randbytes(24)
    base = rng.getrandbits(64)
    guard = 0
    while len(out) < n:
        guard += 1
        i = len(out)
        if style == "same-low":           # one partial key, different hashes
            h = hx((rng.getrandbits(64) & ~mask) | (base & mask), rng.randbytes(24))
        elif style == "few-low":          # a few partial keys
            h = hx((rng.getrandbits(64) & ~mask) | (rng.choice([0, 1, mask, base]) & mask), rng.randbytes(24))
        elif style == "tail-byte":        # differ in one byte only
            b = bytearray(base.to_bytes(8, "little") + t0)
            b[rng.randrange(32)] ^= 1 << rng.randrange(8)
            h = bytes(b).hex()
        elif style == "same-sort":        # identical first 8 bytes
            h = hx(base, rng.randbytes(24) if guard % 3 else bytes(23) + bytes([guard % 256]))
        elif style == "same-tail":        # identical last 24 bytes
            h = hx(rng.choice([base + i, rng.getrandbits(64), i, M64 - i]), t0)
        elif style == "extremes":
            h = rng.choice([hx(0, bytes(23) + b"\1"), hx(M64, b"\xff" * 24), hx(M64, rng.randbytes(24)), hx(0, rng.randbytes(24)),
                            hx(1 << 63, rng.randbytes(24)), hx((1 << 63) - 1, rng.randbytes(24)), hx(mask, bytes(24)), hx(1, bytes(24)),
                            hx(rng.getrandbits(64), bytes(24)), hx(rng.getrandbits(64), rng.randbytes(24))])
        else:
            h = rng.randbytes(32).hex()
        if h not in out and h != "00" * 32: out.append(h)
        elif guard > 20 * n: out.append(rng.randbytes(32).hex())
    return out


STYLES = ("same-low", "few-low", "tail-byte", "same-sort", "same-tail", "extremes", "random")


def edges(rng, n, bins, divider):
    """Hashes at both ends of the bins."""
    out = set()
    while len(out) < n:
        b = rng.choice([0, 1, 2, bins // 2 - 1, bins // 2, bins - 2, bins - 1, bins, rng.randrange(bins)])
        low = b * divider + rng.choice([-1, 0, 1, 2, divider // 2, divider // 2 + 1])
        out.add(hx(min(max(low, 0), M64), rng.choice(tails(rng, 2) + [b"\7" * 24])))
    out = list(out); rng.shuffle(out)
    return out


def ro_end(b):
    """End a history with a read-only open that is asked everything."""
    return b + [{"op": "reopen", "ro": 1}, b[-1]]


def H01(c):
    c.model_check("HashStoreMC.tla", "HashStoreMC.cfg")
    rng, scs, k = c.rng, [], 0
    per, d = (6, 16) if c.quick else (25, 45)
    for n in (3, 8, 20):
        behs = c.generate("HashGen.tla", "gen.cfg", per * 14, d * 4, env={"GEN_DEPTH": d, "GEN_U": n}, seed_off=n)
        for b in behs:
            k += 1
            bits = (0, 1, 2, 4, 8, 12, 16)[k % 7]
            entry, cpc = 1 + k % 8, 2 + (k // 3) % 7
            kind = ("classic", "classic", "classic", "memory", "basic")[k % 5]
            memlkp = (k // 7) % 2
            scs.append({"cfg": {"kind": kind, "bits": bits, "entry": entry, "cpc": cpc, "memlkp": memlkp, "ao": (k // 2) % 2,
                                "cap": (1 << (8 * entry - 1)) - 1 if kind == "classic" and entry < 4 else 0,
                                "hashes": universe(rng, n, STYLES[k % len(STYLES)], bits)},
                        "ops": ro_end(b) if kind == "classic" else b})
    # to the capacity of one-byte entries, and beyond
    for cpc in (2, 3, 8):
        for bits in (0, 2, 9):
            for reopen in (0, 1):
                u = universe(rng, 140, "few-low" if bits else "random", bits)
                allq = {"op": "q", "finds": list(range(1, 141)), "gets": list(range(0, 131))}
                ops = [{"op": "new"}]
                for i in range(1, 137):
                    ops.append({"op": "append", "h": i})
                    if reopen and i % 30 == 0: ops.append({"op": "reopen"})
                ops += [allq, {"op": "reopen"}, {"op": "append", "h": 140}, allq]
                scs.append({"cfg": {"kind": "classic", "bits": bits, "entry": 1, "cpc": cpc, "cap": 127, "hashes": u, "memlkp": 0, "ao": reopen}, "ops": ops})
    # long lists of chunks, two-byte entries past 255
    for cpc in (2, 5):
        u = universe(rng, 400, "same-low", 4)
        ops = [{"op": "new"}] + [{"op": "append", "h": i} for i in range(1, 391)]
        allq = {"op": "q", "finds": list(range(1, 401)), "gets": list(range(0, 391))}
        ops += [allq, {"op": "reopen"}, allq, {"op": "append", "h": 7}, {"op": "append", "h": 395}, {"op": "q", "finds": [7, 395, 1, 390], "gets": [390, 391, 392]}]
        scs.append({"cfg": {"kind": "classic", "bits": 4, "entry": 2, "cpc": cpc, "cap": 32767, "hashes": u, "memlkp": 1, "ao": 1}, "ops": ops})
    tr = run_scenarios(c, "hashdrv", scs, label="hash store", parallel=8, timeout=300)
    c.validate("HashTrace.tla", "trace.cfg", tr, "hash store", chunk=60)
    c.sample(tr[0][:6])


def bins_cfg(rng, k):
    bins = (2, 4, 6, 8, 10, 256, 1000, 65536)[k % 8]
    div = (1 << 63) // (bins // 2)
    rem = max(div - 1, M64 - (bins - 1) * div)
    need = (rem.bit_length() + 7) // 8
    cfg = {"bits": (7, 8, 9, 16, 31, 33)[(k // 2) % 6], "est": (0, 1, bins, 10 * bins)[(k // 3) % 4], "digits": 1 + k % 3, "bins": bins,
           "entries": (1, 2, 3, 10)[(k // 5) % 4], "sort": rng.choice([need, 8]), "ram": 0}
    return cfg, bins, div


def bins_universe(rng, k, n, bins, div):
    s = (k // 2) % 6
    if s == 0: return edges(rng, n, bins, div)
    if s == 1:                                             # one bin, so that it overflows
        b = rng.choice([0, bins - 1, rng.randrange(bins)])
        return [hx(b * div + rng.randrange(div), rng.randbytes(24)) for _ in range(n)]
    if s == 2:                                             # one bin, few sort numbers, many tails
        b = rng.choice([0, bins - 1]); sns = [rng.randrange(div) for _ in range(3)] + [0, div - 1]; ts = tails(rng, max(2, n // 3))
        out = []
        while len(out) < n:
            h = hx(b * div + rng.choice(sns), rng.choice(ts))
            if h not in out: out.append(h)
            elif rng.random() < .2: ts.append(rng.randbytes(24))
        return out
    return universe(rng, n, ("same-sort", "same-tail", "extremes")[s - 3])


def H02(c):
    c.model_check("BinMC.tla", "BinMC.cfg")
    c.model_check("AdaptivePlan.tla", "AdaptivePlan.cfg", must_cover=["Design", "Assign", "Feed", "Finish"])
    rng, scs, k = c.rng, [], c.seed
    per, d = (40, 6) if c.quick else (240, 14)
    for n in (2, 7, 25, 60):
        behs = c.generate("BuildGen.tla", "gen.cfg", per, d * 3, env={"GEN_DEPTH": d, "GEN_U": n, "GEN_APPEND": 1, "GEN_MULTI": 1}, seed_off=n)
        for b in behs:
            k += 1
            cfg, bins, div = bins_cfg(rng, k)
            cfg.update(kind="bins", hashes=bins_universe(rng, k, n, bins, div))
            ram = k % 4 == 0 and bins < 60000
            ops = []
            for o in b:
                o = dict(o)
                if o["op"] == "append" and ram: continue
                if o["op"] == "build":
                    if bins > 16: o["gb"] = 1
                    elif o["method"] == "multi" and rng.random() < .5:     # several bins per pass
                        per_pass = rng.randint(1, bins)
                        esz = 24 + cfg["sort"] + (cfg["bits"] - 1) // 8 + 1
                        cfg["est"] = bins * ((1 << 30) // (esz * per_pass)); o["gb"] = 1
                    if cfg["est"] > 10 * bins: o["method"] = "multi"
                ops.append(o)
            cfg["ram"] = int(ram)
            if ram:                                         # without the appends, the questions follow the builds
                last, fixed = 0, []
                for o in ops:
                    if o["op"] == "build": last = len(o["ids"])
                    if o["op"] == "q": o["gets"] = list(range(last + 1))
                    fixed.append(o)
                ops = fixed
            scs.append({"cfg": cfg, "ops": ops})
    # appends to an empty index
    for n in (4, 15):
        for b in c.generate("HashGen.tla", "gen.cfg", per // 2, d * 12, env={"GEN_DEPTH": 3 * d, "GEN_U": n}, seed_off=100 + n):
            k += 1
            cfg, bins, div = bins_cfg(rng, k)
            cfg.update(kind="bins", hashes=bins_universe(rng, k, n, bins, div), cap=0)
            scs.append({"cfg": cfg, "ops": ro_end(b)})
    tr = run_scenarios(c, "hashdrv", scs, label="pre-built hash index", parallel=6, timeout=400)
    c.validate("HashTrace.tla", "trace.cfg", tr, "pre-built hash index", chunk=50)
    c.sample(tr[0][:3])
    # larger lists, one big bin included
    big = []
    for n, bins in ((3000, 256), (3000, 2), (2500, 1000)) if c.quick else ((3000, 256), (3000, 2), (2500, 1000), (20000, 256), (20000, 6)):
        for method in ("adaptive", "multi"):
            div = (1 << 63) // (bins // 2)
            hs = [rng.randbytes(32).hex() for _ in range(n)]
            hs += [hx(3 * (div // 4) + i, rng.randbytes(24)) for i in range(500)]
            ids = list(range(1, n + 501)); rng.shuffle(ids); ids += [rng.choice(ids) for _ in range(300)]
            q = {"op": "q", "finds": list(range(1, n + 501)), "gets": [rng.randrange(len(ids)) for _ in range(400)]}
            big.append({"cfg": {"kind": "bins", "bits": 17, "est": n, "digits": 2, "bins": bins, "entries": 3, "sort": 8, "ram": 1, "hashes": hs},
                        "ops": [{"op": "build", "ids": ids, "method": method, "threads": 8, "gb": 1, "prebins": 100}, q]})
    tr = run_scenarios(c, "hashdrv", big, label="pre-built hash index, large", parallel=4, timeout=400)
    c.validate("HashTrace.tla", "trace.cfg", tr, "pre-built hash index, large", chunk=1)
    # the workers of both preloaders under the race detector
    small = [s for s in scs if s["cfg"]["bins"] <= 1000 and any(o["op"] == "build" for o in s["ops"])][:: 8 if c.quick else 3]
    tr = run_scenarios(c, "hashdrv", small, label="pre-built hash index (race detector)", parallel=6, timeout=400, race=True)
    c.validate("HashTrace.tla", "trace.cfg", tr, "pre-built hash index, race build", chunk=50)


def H03(c):
    rng, scs, k = c.rng, [], c.seed
    per, d = (30, 6) if c.quick else (200, 14)
    c.model_check("UniformMC.tla", "UniformMC.cfg")
    for n in (2, 9, 40):
        for b in c.generate("BuildGen.tla", "gen.cfg", per, d * 3, env={"GEN_DEPTH": d, "GEN_U": n, "GEN_APPEND": 0, "GEN_MULTI": 0}, seed_off=n):
            k += 1
            est = (150, 151, 225, 300, 449, 1500, 7499)[k % 7]
            files = est // 75
            div = int(2.0 ** 64 / files)
            u = edges(rng, n, files, div) if k % 3 == 0 else universe(rng, n, STYLES[k % len(STYLES)], 8)
            ops = [dict(o) for o in b]
            for j, o in enumerate(ops):
                if o["op"] == "build":
                    o["pass"] *= 832
                    if j: o["over"] = (k + j) % 3
            scs.append({"cfg": {"kind": "uniform", "est": est, "digits": 1 + k % 3, "hashes": u}, "ops": ops})
    # overflowing bins, around the 102 entries that fit
    for m in (100, 101, 102, 103, 104, 210, 330):
        for passes in (0, 1, 3):
            est, files = 600, 8
            div = int(2.0 ** 64 / files)
            hs = []
            for b in (0, files - 1, 3):
                hs += [hx(b * div + rng.randrange(div - 4096), rng.randbytes(24)) for _ in range(m)]
            hs += [rng.randbytes(32).hex() for _ in range(10)]
            ids = list(range(1, 3 * m + 1)); rng.shuffle(ids)
            ids += [rng.choice(ids) for _ in range(40)]
            q = {"op": "q", "finds": list(range(1, 3 * m + 11)), "gets": list(range(len(ids) + 1))}
            # ... and indexed again over what is there, listed in another order, with others before them, or fewer of them
            again = ids[:]; rng.shuffle(again)
            again = [3 * m + 1 + j for j in range(10)][: m % 11] + again[: len(again) - (m * passes) % 70]
            q2 = {"op": "q", "finds": q["finds"], "gets": list(range(len(again) + 1))}
            scs.append({"cfg": {"kind": "uniform", "est": est, "digits": 1 + m % 3, "hashes": hs},
                        "ops": [{"op": "build", "ids": ids, "pass": passes * 832}, q, {"op": "reopen", "ro": 1}, q,
                                {"op": "build", "ids": again, "pass": (passes + 1) % 4 * 832, "over": (m + passes) % 3}, q2]})
    tr = run_scenarios(c, "hashdrv", scs, label="uniform hash index", parallel=8, timeout=400)
    c.validate("HashTrace.tla", "trace.cfg", tr, "uniform hash index", chunk=40)
    c.sample(tr[0][:3])


def H04(c):
    """The same stores while reads and opens fail, or (an index being built) any operation on its files."""
    c.faults = True
    c.model_check("BinFailMC.tla", "BinFailMC.cfg", must_cover=["Insert", "StartHas", "NotFull", "NotThere", "OverAsked"])
    rng, scs, k = c.rng, [], c.seed
    per, d = (110, 8) if c.quick else (500, 14)
    for n in (3, 9, 24):                                    # appended to
        for b in c.generate("HashGen.tla", "gen.cfg", per, d * 12, env={"GEN_DEPTH": d * 3, "GEN_U": n, "GEN_FULL": 1}, seed_off=200 + n):
            k += 1
            kind = ("classic", "classic", "bins", "memory", "basic")[k % 5]
            if kind == "bins":
                cfg, bins, div = bins_cfg(rng, k)
                cfg.update(kind="bins", hashes=bins_universe(rng, k, n, bins, div), cap=0)
            else:
                bits, entry = (0, 1, 2, 4, 8)[k // 5 % 5], 1 + k % 8
                cfg = {"kind": kind, "bits": bits, "entry": entry, "cpc": 2 + k // 3 % 7, "memlkp": int(k % 25 == 0), "ao": k // 2 % 2,
                       "cap": 0, "hashes": universe(rng, n, STYLES[k % len(STYLES)], bits)}
            if k % 4 == 0:                                  # it fails to be created, or is
                b = [{"op": "limit", "kind": rng.choice(["write", "open", "read", "mkdir"]), "in": "", "k": rng.randint(1, 7), "part": rng.choice([0, 1, 9]),
                      "ever": rng.randrange(2)}] + b
            scs.append({"cfg": cfg, "ops": b})
    for n in (2, 9, 40):                                    # built over a list
        for b in c.generate("BuildGen.tla", "gen.cfg", per, d * 3, seed_off=300 + n,
                            env={"GEN_DEPTH": d, "GEN_U": n, "GEN_APPEND": 0, "GEN_MULTI": 1, "GEN_FULL": 1}):
            k += 1
            if k % 3 == 0:
                est = (150, 300, 449, 1500)[k // 3 % 4]; files = est // 75; div = int(2.0 ** 64 / files)
                u = [hx(rng.randrange(div - 4096), rng.randbytes(24)) for _ in range(n)] if k % 2 else universe(rng, n, STYLES[k % len(STYLES)], 8)
                cfg = {"kind": "uniform", "est": est, "digits": 1 + k % 3, "hashes": u}
            else:
                cfg, bins, div = bins_cfg(rng, k)
                cfg.update(kind="bins", hashes=bins_universe(rng, k, n, bins, div))
                cfg["ram"] = int(k % 2 == 0 and bins < 60000)
            ops = [dict(o) for o in b]
            for j, o in enumerate(ops):
                if o["op"] != "build": continue
                o["pass"] *= 832
                if cfg["kind"] == "bins":
                    if bins > 16: o["gb"] = 1
                    if cfg["est"] > 10 * bins: o["method"] = "multi"
            scs.append({"cfg": cfg, "ops": ops})
    # bins that overflow, and one of the operations which make the files of theirs
    at = [(kind, where, n) for kind, where in (("write", "Overflows"), ("open", "Overflows"), ("mkdir", "Overflows"), ("write", "BinStarts"), ("open", "BinStarts"))
          for n in (1, 2, 3, 9)]
    # ... or of those which read the hashes (where they are read by the caller: a worker panics)
    at += [(kind, "Hashes.hsh", n) for kind in ("read", "open") for n in (1, 2, 3)] * 2
    for kind, where, n in at:
        for m in (103, 140):
            k += 1
            est, files = 600, 8
            div = int(2.0 ** 64 / files)
            hs = [hx(b * div + rng.randrange(div - 4096), rng.randbytes(24)) for b in (0, files - 1) for _ in range(m)]
            ids = list(range(1, 2 * m + 1)); rng.shuffle(ids)
            q = {"op": "q", "finds": ids, "gets": list(range(len(ids) + 1))}
            cfg = {"kind": "uniform", "est": est, "digits": 1 + m % 3, "hashes": hs}
            if k // 2 % 2:
                bcfg, bins, div = bins_cfg(rng, k)
                cfg = dict(bcfg, kind="bins", hashes=bins_universe(rng, k, 2 * m, bins, div))
                ids = [i for i in ids if i <= 60]; q = dict(q, finds=ids[:], gets=list(range(len(ids) + 1)))
            ops = [{"op": "limit", "kind": kind, "in": where, "k": n, "part": rng.choice((0, 0, 3)), "ever": rng.randrange(2)},
                   {"op": "build", "ids": ids, "pass": rng.choice((0, 1, 3)) * 832, "gb": 1, "threads": rng.choice((1, 4)), "prebins": 16,
                    "method": "multi" if where == "Hashes.hsh" else rng.choice(("adaptive", "multi"))}, q, {"op": "reopen", "ro": 1}, q]
            scs.append({"cfg": cfg, "ops": ops})
    tr = run_scenarios(c, "hashdrv", scs, label="hash stores on a failing disk", parallel=8, timeout=400)
    n, told = 0, {}
    for t in tr:
        lim = False
        for e in t:
            if lim:
                bad = "error" if e.get("err") else "some errors" if -9 in e.get("idx", []) else "done"
                told[e["op"] + " " + bad] = told.get(e["op"] + " " + bad, 0) + 1
            lim = e["op"] == "limit" or lim and e["op"] not in ("lift", "build")
    c.extra["while failing"] = told
    c.validate("HashTrace.tla", "trace.cfg", tr, "hash stores on a failing disk", chunk=40)
    c.sample(tr[0][:6])
